#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text is easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": ["include/cest/" + f for f in files],
                     "mechanism": [{"name": n, "where": "include/cest/" + w} for n, w in mech],
                     "hook_needed": None}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": "include/cest/" + w} for n, m, w in state]
    P.append(d)

p("C01", "cest::vector is a faithful sequence",
  "After any history of the operations it offers (default, counted, list, copy and move construction and assignment, swap, push_back, pop_back, resize, reserve, erase of a range, clear, element access including at(), forward and reverse iteration, ==), a cest::vector has exactly the size, the elements in exactly the order, and the results and exceptions that std::vector has after the same history. Capacity is never below size, reserve never shrinks, and resize value-initialises the elements it adds.",
  ["histories", "inputs"], "every operation history, every element type that is copyable (trivial, string-owning, nested container, instrumented), every size including those around a reallocation",
  "tests/vector_tests.hpp and the constexpr tests replay about a dozen fixed short histories of int elements; they never combine erase, shrink, assignment into a smaller/larger target and reallocation.",
  ["vector.hpp"], [("reserve/resize/push_back growth", "vector.hpp:108"), ("element-wise assignment", "vector.hpp:84"), ("erase shifts the tail down", "vector.hpp:207")],
  ["size(), capacity(), operator[], at(), iterators, data(), =="], [("m_size/m_capacity/m_p", "number of live elements, storage length, storage", "vector.hpp:219")])

p("C02", "cest::basic_string is a faithful character sequence",
  "After any history of the operations it offers (construction from pointer, pointer and count, input iterators, copy; assignment from string and pointer; push_back, pop_back, append, +=, clear, reserve, indexing, iteration, find of a character, a string or a counted pointer from any position, compare and ==, !=, < in every argument order), a cest string holds the same characters and gives the same answers (comparisons: the same sign) as the std string, for every character type, every character traits class and every content including embedded null characters. c_str() and data() always yield size() characters followed by a terminating null.",
  ["histories", "inputs"], "every operation history over every content (embedded nulls, high-bit characters, empty, long), for char, wchar_t, char16_t and char32_t, and every search position",
  "tests/string_tests.hpp uses a few literal ASCII strings; no test has an embedded null, a find position past the first match, a wide string history, or a comparison of prefixes at run time over many inputs.",
  ["string.hpp"], [("append / reserve growth keeps the terminator", "string.hpp:187"), ("find scan", "string.hpp:147"), ("compare by length after common prefix", "string.hpp:267")],
  ["size(), data(), c_str(), find(), compare(), relational operators"])

p("C03", "cest::deque is a faithful double-ended sequence",
  "After any history of push_front, push_back, pop_front, pop_back, clear, copy construction, list construction, assignment, indexing, front/back and iteration in either direction, a cest::deque has exactly the size and the elements in exactly the order that std::deque has after the same history, however many elements have passed through it. Iterating from begin() to end() visits exactly size() elements, and end() - begin() equals size().",
  ["histories", "inputs"], "every history of end operations, in particular those whose ends cross internal storage-block boundaries (hundreds to thousands of pushes and pops on either side, in any interleaving)",
  "tests/deque_tests.hpp pushes a handful of elements, so no test crosses a block boundary from either end, drains a block and refills it, or iterates over more than one block.",
  ["deque.hpp"], [("block map and end cursors", "deque.hpp:299"), ("iterator stepping across blocks", "deque.hpp:46"), ("index to (block, offset)", "deque.hpp:286")],
  ["size(), operator[], front(), back(), iterators"], [("m_front, m_back, chunk indices", "positions of the first and last element", "deque.hpp:347")])

p("C04", "cest::list is a faithful doubly linked sequence",
  "After any history of push, pop and emplace at either end, insert and emplace before any position, erase at any position, clear, copy construction and assignment, a cest::list has exactly the size, elements and order that std::list has after the same history, seen forwards and backwards. insert and emplace return an iterator to the new element and erase returns an iterator to the element that followed.",
  ["histories", "inputs"], "every operation history and every insertion/erasure position including begin() and end()",
  "tests/list_tests.hpp checks single operations on lists of at most a few elements; no history mixes middle insertion, erasure at the ends, reuse after clear, and reverse traversal.",
  ["list.hpp"], [("linking in insert/emplace", "list.hpp:212"), ("unlinking in erase", "list.hpp:256")], ["size(), forward and backward iteration, front(), back(), returned iterators"])

p("C05", "cest::forward_list is a faithful singly linked sequence",
  "After any history of push_front, pop_front, insert_after, erase_after of one element or of a range, clear, swap, copy construction and assignment, a cest::forward_list has exactly the elements in the order that std::forward_list has after the same history. insert_after returns an iterator to the new element and erase_after an iterator to the element following the erased ones.",
  ["histories", "inputs"], "every operation history, every position including before_begin() and every range including empty ones and those reaching end()",
  "tests/forward_list_tests.hpp covers fixed lists of a few ints; ranges to end, empty ranges and mixes of swap, copy and erasure are not exercised.",
  ["forward_list.hpp"], [("insert_after / erase_after relinking", "forward_list.hpp:139"), ("copy then swap assignment", "forward_list.hpp:112")], ["iteration, front(), empty(), returned iterators"])

p("C06", "cest::set is a faithful ordered set",
  "After any history of insert (with or without hint), clear, copy construction and assignment, a cest::set holds exactly one element of each equivalence class inserted, namely the first inserted, and iterating it visits all of them in ascending comparator order. size, empty, the iterator and flag returned by insert, and find (by key or, with a transparent comparator, by any comparable value) agree with std::set for every strict weak ordering, including one chosen when the set is made, which copies of the set take along.",
  ["histories", "inputs"], "every insertion order and multiset of keys, every comparator that is a strict weak ordering, const and non-const access",
  "tests/set_tests.hpp inserts a few fixed sequences with std::less<int>; rebalancing has many insertion-order-dependent cases that a handful of sequences cannot reach.",
  ["set.hpp", "swap.hpp"], [("red-black insertion with rotations", "set.hpp:213"), ("in-order iteration by parent links", "set.hpp:49"), ("search", "set.hpp:147")], ["begin()..end(), size(), insert result, find result"])

p("C07", "cest::map is a faithful ordered map",
  "After any history of insert, assignment through a found iterator, clear, copy construction and assignment, a cest::map holds exactly the entries std::map holds after the same history, and iterating it visits all of them in ascending key order, for every strict weak ordering on keys (keys need no operator==). size, empty, the iterator and flag returned by insert, and find (by key or, with a transparent comparator, by any comparable value) agree with std::map, including for an ordering chosen when the map is made, which copies of the map take along.",
  ["histories", "inputs"], "every insertion order, key type, mapped type and strict weak ordering, const and non-const access",
  "tests/map_tests.hpp uses a few fixed insertions of int keys with std::less; no test uses another comparator, a key without ==, heterogeneous find, or enough insertions to reach every rebalancing case.",
  ["map.hpp", "swap.hpp"], [("red-black insertion with rotations", "map.hpp:277"), ("in-order iteration", "map.hpp:54"), ("search", "map.hpp:211")], ["begin()..end(), size(), insert result, find result"])

p("C08", "cest::queue is first-in first-out over any container",
  "A cest::queue hands out elements in exactly the order they were pushed, front() and back() are the oldest and the newest element not yet popped, and size and empty count those elements, whatever the interleaving of push and pop, whichever conforming sequence container underlies it and whatever contents it is constructed or copied from.",
  ["histories", "inputs"], "every interleaving of push and pop (long enough to wrap through storage blocks), over cest::deque, cest::list and std::deque as underlying containers",
  "tests/queue_tests.hpp pushes and pops a few ints over the default container only.",
  ["queue.hpp", "deque.hpp", "list.hpp"], [("push_back/pop_front forwarding", "queue.hpp:34")], ["front(), back(), size(), empty(), pop order"])

p("C09", "Containers manage element lifetimes exactly",
  "In every history, each element a cest container, queue, set, map or string holds is constructed exactly once before it is used and destroyed exactly once, no element is read, assigned or destroyed while not alive, the number of live elements is exactly the number the containers report, and when the containers are gone no element and no memory remains.",
  ["histories"], "every operation history of every container with elements that register their own construction and destruction",
  "The tests use ints and other trivial types almost everywhere, for which a skipped or doubled construction or destruction is invisible; only a few short constexpr evaluations would notice a leak.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp", "queue.hpp"],
  [("construct_at / destroy_n in growth, resize, assignment, erase", "vector.hpp:84"), ("clear and destructor", "deque.hpp:175"), ("node destruction", "list.hpp:188"), ("recursive node destruction", "set.hpp:130")], ["element constructors/destructors, operator new/delete"])

p("C10", "Storage goes through the allocator, balanced and exact",
  "Every block a cest container uses for its elements or nodes is obtained from its allocator parameter, is given back to that allocator exactly once with the pointer and the count it was obtained with, and only memory inside a block currently held is used for elements; when a container is destroyed all its blocks have been given back. A copy of a container has the allocator which select_on_container_copy_construction makes of the original's, and copy assignment leaves both containers their own.",
  ["histories"], "every operation history of every container instantiated with a checking allocator",
  "All tests use std::allocator, which ignores the count it is given and does not report an unreturned block at run time.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp"],
  [("allocate/deallocate pairs", "vector.hpp:108"), ("capacity+1 characters", "string.hpp:241"), ("fixed-size blocks", "deque.hpp:326"), ("rebound node allocator", "list.hpp:212")], ["the allocator's own ledger"])

p("C11", "A failing copy or allocation leaves containers valid",
  "When an element constructor, copy assignment or comparison, or an allocation, throws at any point of any operation on a cest container, the exception reaches the caller, nothing is leaked or destroyed twice, the container stays usable with size and contents consistent with each other, and for single-element insertions (push, emplace, insert) its contents are exactly those before the call.",
  ["fault_sequences", "histories"], "every operation history, with an exception injected at every possible point of element construction, copy or comparison, or of allocation",
  "No test throws from an element or an allocator at all.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp"],
  [("order of allocation, construction and bookkeeping", "vector.hpp:187"), ("cursor update vs construction", "deque.hpp:213"), ("node linking after construction", "list.hpp:212"), ("insertion recursion", "set.hpp:213")], ["contents after the exception, element and allocation ledgers"])

p("C12", "cest::unique_ptr owns exactly one object, once",
  "Through any history of construction, move construction (also to a base type), move assignment, reset, release and destruction, each object given to a cest::unique_ptr is deleted exactly once, at the moment its last owner is destroyed, reset or assigned over, unless released; get, bool, dereference and the six comparisons reflect the currently held pointer, and a moved-from pointer is null. make_unique makes what std::make_unique makes from the same arguments.",
  ["histories"], "every history over a pool of pointers and objects, including null pointers and derived-to-base moves",
  "tests/memory_tests.hpp checks single operations on single pointers; it does not observe when or how often the pointee is deleted across histories.",
  ["memory.hpp"], [("move assignment", "memory.hpp:44"), ("reset", "memory.hpp:70"), ("release", "memory.hpp:63")], ["deletion events of instrumented pointees"])

p("C13", "cest::shared_ptr deletes its object exactly once, last",
  "Through any history of construction (plain, with deleter, array, of void, aliasing a part, base or element of an object owned by a pointer of another type, converting-base pointee), copy construction, copy assignment (including self-assignment and of empty pointers) and destruction, use_count() equals the number of shared_ptrs sharing ownership and the object is deleted exactly once, by its deleter or as the type it was created with, when the last of them goes away. Empty pointers have use_count 0 and can be copied, assigned and destroyed freely, and get_deleter returns the stored deleter, whatever the type of the object or pointer, or null.",
  ["histories"], "every history over a pool of shared pointers and objects",
  "tests/shared_ptr_tests.hpp checks a few single copies; copy assignment, empty pointers and multi-owner histories are never exercised.",
  ["shared_ptr.hpp"], [("control block reference count", "shared_ptr.hpp:83"), ("deleter dispatch", "shared_ptr.hpp:56")], ["use_count(), get(), deletion events"])

p("C14", "cest::function forwards exactly to its own copy of the target",
  "Calling a cest::function invokes its target exactly once with exactly the arguments given (values, references, move-only and const alike) and returns exactly its result, without copying the target or copying an argument more often than std::function does; making, copying, moving and assigning a cest::function likewise copies the target no more often than std::function does; the target's state persists from call to call, and the stored target is independent of the callable it was made from and of any copy of the cest::function.",
  ["histories", "inputs"], "every signature shape, every kind of callable (lambda with state, function pointer, functor), every call sequence interleaved with copies and moves of the wrapper",
  "tests/functional_tests.hpp calls a handful of stateless lambdas once; state, copies, reference arguments and destruction of the target are not covered.",
  ["functional.hpp"], [("type-erased target and forwarding call", "functional.hpp:14"), ("target construction", "functional.hpp:60")], ["results, argument identity, target construction/destruction counts"])

p("C15", "cest string streams read exactly what std string streams read",
  "For every content, every character traits class and every history of get, read, unget, clear, setstate, str, exception masks, state queries and operations on the stream's buffer (sgetc, sbumpc, snextc, sungetc, sgetn), a cest istringstream or stringstream delivers the same characters, gcount values and good/eof/fail/bad states as the corresponding std stream, and throws ios_base::failure when it does.",
  ["histories", "inputs"], "every content (empty, embedded nulls, bytes above 127) and every call history including reads past the end, unget at the start and reading after failure, char and wchar_t",
  "tests/sstream_tests.hpp reads one short literal; reading past the end, recovery by clear, unget sequences and binary content are not covered.",
  ["sstream.hpp", "istream.hpp", "streambuf.hpp", "basic_ios.hpp", "ios_base.hpp"],
  [("get/read/unget and state bits", "istream.hpp:151"), ("buffer pointers", "streambuf.hpp:1"), ("string to get-area synchronisation", "sstream.hpp:60"), ("state flags", "basic_ios.hpp:72")], ["characters read, gcount(), rdstate()"])

p("C16", "In-memory files deliver exactly the bytes they were opened on",
  "A stream opened with fmemopen on any buffer delivers through any sequence of fread calls exactly the buffer's bytes in order, each fread returning the number of bytes actually delivered (short only at the end, zero afterwards) and leaving the rest of the destination untouched; the stream is independent of later changes to the buffer, and fclose returns 0 and releases everything.",
  ["histories", "inputs"], "every buffer content and length (zero, embedded nulls, large) and every split into fread calls, several streams open at once",
  "tests/cstdio_tests.hpp reads one small buffer once.",
  ["cstdio.hpp", "sstream.hpp", "istream.hpp", "streambuf.hpp"], [("fmemopen/fread/fclose", "cstdio.hpp:69")], ["bytes written to the destination, return values, memory ledger"])

p("C17", "Run-time output is byte-identical to the standard library's",
  "At run time every sequence of writes through cest::cout, cerr and clog (characters, C strings, cest strings, int, unsigned, long, pointers and smart pointers, endl, flush, hex/dec/oct manipulators) and through cest printf and fprintf produces on each of the process's output streams exactly the bytes, in the order, that the same sequence written through std::cout, cerr, clog, printf and fprintf produces, and printf-family calls return the same byte counts. Writing keeps no memory.",
  ["inputs", "histories"], "every interleaving of writes to the three streams and every value, including extreme ints, long and binary strings, percent signs and format arguments",
  "The tests can only evaluate output at compile time, where it is a no-op; nothing ever looks at a byte that was printed.",
  ["runtime_ostream.hpp", "ostream.hpp", "iostream.hpp", "cstdio.hpp", "string.hpp", "ios_base.hpp"],
  [("dispatch on stream identity", "runtime_ostream.hpp:11"), ("printf/fprintf forwarding", "cstdio.hpp:30")], ["descriptors 1 and 2", "buffers set on std::cout, cerr and clog", "memory held afterwards"])

p("C18", "Elementary functions approximate the true functions everywhere",
  "For every finite argument (exp: |x| up to 709) cest's sqrt, exp, log, sin, cos, atan, atan2, sinh and cosh terminate and (sin and cos: |x| up to 1000000; sinh and cosh: |x| up to 710) agree with the C library: sqrt and cosh within a relative 0.001, exp 0.0001 and sinh 0.0002, log within 0.0015, atan and atan2 (arguments not both 0) within 0.0001, and sin and cos within 0.000001*(|x|+6), across signs, quadrants and magnitudes; cosh is even and atan, atan2 (in y) and sinh are odd. NaN arguments give NaN, infinities give the C library's limits (atan, exp, log, sqrt, sinh, cosh) or NaN (sin, cos), exp is infinity above 710, sinh and cosh are infinite with the right sign beyond 711, sqrt of 0 is 0 and of a negative is NaN, and log of 0 is -infinity and of a negative NaN.",
  ["inputs"], "every double argument in the function's supported range, across magnitudes, signs, branch boundaries and special values",
  "tests/cmath_tests.hpp samples one to three arguments per function with positive mid-range values.",
  ["cmath.hpp"], [("Newton iteration", "cmath.hpp:31"), ("argument reduction and series", "cmath.hpp:45"), ("quadrant handling", "cmath.hpp:112")], ["return values, termination"])

p("C19", "floor, ceil, abs and integer powers are exact",
  "floor and ceil return exactly the mathematical floor and ceiling for every argument whose result is representable as an int, abs and fabs return the magnitude of every double, and pow with an integer exponent equals repeated multiplication for every base (exact whenever all partial products are exact), with negative exponents its reciprocal.",
  ["inputs"], "every double with an int-representable floor/ceiling, in particular values adjacent to integers, and every base and exponent, up to the largest",
  "tests/cmath_tests.hpp checks a few arguments far from integers.",
  ["cmath.hpp", "bits/abs.hpp"], [("truncate and correct", "cmath.hpp:120"), ("repeated multiplication", "cmath.hpp:136")], ["return values"])

p("C20", "Character classification agrees with the C locale",
  "cest::isalnum and cest::isupper return non-zero for exactly the values for which the C library's functions do in the C locale, for EOF and every value of unsigned char.",
  ["inputs"], "every int from -1 to 255 (enumerated completely)",
  "The tests check a few letters and digits, not the boundary characters, nulls or bytes above 127.",
  ["cctype.hpp"], [("table search", "cctype.hpp:10")], ["zero/non-zero result"])

p("C21", "Complex arithmetic obeys the algebra of complex numbers",
  "For finite operands whose operations neither over- nor underflow, cest::complex construction, assignment, component access, +, -, *, /, their compound forms, mixed complex/real and mixed-precision forms, ==, !=, conj and norm give the value std::complex gives (exactly where each component is a single rounded operation, otherwise within rounding), and abs, arg, polar, exp, log, log10, sqrt, sin, cos, tan, sinh, cosh, tanh and pow give it within the tolerance of cest's own square root, exponential and trigonometric functions, for float and double alike.",
  ["inputs"], "all pairs of operands across signs and magnitudes, mixed and compound operators, conversions between precisions",
  "tests/complex_tests.hpp checks a few operators on fixed small values.",
  ["complex.hpp", "cmath.hpp"], [("operator definitions", "complex.hpp:200")], ["real and imaginary parts of results"])

p("C22", "n-ary swap rotates any number of variables",
  "nary::swap(x1,...,xn) leaves x1..xn holding the former values of x2,...,xn,x1 and nary::swapr the inverse rotation, for every n from 0 up and every movable type; no value is lost, duplicated or copied, and applying one after the other restores the original values.",
  ["inputs"], "every arity and every value tuple, for copyable and move-only types",
  "The swap helper is tested on two or three ints; its noexcept, move-only and higher arity behaviour only indirectly through the tree rotations.",
  ["swap.hpp"], [("fold over reference wrappers", "swap.hpp:16")], ["values after the call, copy/move counts"])

p("C23", "Standard algorithms work over cest containers",
  "Every algorithm and numeric function cest re-exports, and back_inserter and inserter where the container has push_back or hinted insert, compiles for and gives, applied to the iterators of cest containers of the category it requires, exactly the result and the final container contents that it gives on the corresponding std container with the same contents, whatever the contents (where the standard leaves an order unspecified, any permitted one).",
  ["inputs"], "every algorithm applicable to each container's iterator category, every content and size, including deque contents spanning storage blocks, subranges and reverse ranges",
  "Each algorithm is tested, if at all, once on a fixed small vector or array.",
  ["algorithm.hpp", "numeric.hpp", "iterator.hpp", "vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp"],
  [("re-exports", "algorithm.hpp:8"), ("iterator types and tags", "deque.hpp:36"), ("back_inserter support", "vector.hpp:187")], ["algorithm results and final contents"])

p("C24", "Compile-time evaluation equals run-time evaluation",
  "Every program built from cest's containers, strings, smart pointers, functions, streams and math that is valid at run time can be evaluated in a constant expression, is free of undefined behaviour and leaks there, and yields exactly the value it yields at run time and that the same program over the std types yields.",
  ["programs"], "every program composed of the library's constexpr operations",
  "The test suite evaluates each fixed test in a constant expression and at run time, but only those; it never compares generated programs across the two evaluation modes.",
  ["vector.hpp", "string.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "queue.hpp", "memory.hpp", "shared_ptr.hpp", "functional.hpp", "sstream.hpp", "cmath.hpp", "complex.hpp", "swap.hpp"],
  [("constexpr on every member", "vector.hpp:31"), ("is_constant_evaluated dispatch", "runtime_ostream.hpp:14")], ["constant-evaluated digest vs run-time digest"])

p("C25", "Any combination of headers compiles, links and behaves the same",
  "Any subset of cest's headers, included in any order and in any number of translation units of one program, compiles without errors, links without duplicate or missing definitions, and all translation units see the same cest::cout, cerr and clog objects.",
  ["configurations"], "every subset and order of the headers and every split across translation units",
  "Every test is a single translation unit including a fixed set of headers in a fixed order.",
  ["iostream.hpp", "basic_ios.hpp", "cmath.hpp", "complex.hpp", "pair.hpp", "ios_base.hpp", "streambuf.hpp", "runtime_ostream.hpp"],
  [("include guards and dependencies", "basic_ios.hpp:4"), ("global stream definitions", "iostream.hpp:1")], ["compiler and linker results, program output"])

p("C26", "Copies are equal, independent and self-assignment is harmless",
  "A copy of any cest container, string, queue, set or map (by construction or assignment, into any prior state of the target, chained or from itself) has the contents of the original, and no later operation on or destruction of either one changes what the other observes; assigning an object to itself leaves it unchanged; moving transfers the contents and leaves the source valid.",
  ["histories", "inputs"], "every pair of prior states of source and target and every later history on either",
  "Tests copy one small container once and hardly ever modify either side afterwards; self-assignment is untested.",
  ["vector.hpp", "string.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "queue.hpp"],
  [("copy constructors and assignment", "vector.hpp:84"), ("clear then re-insert assignment", "deque.hpp:182"), ("copy and swap", "forward_list.hpp:112")], ["contents of both objects after each step"])

p("C27", "Iterators obey their category's laws and references stay valid",
  "For every cest container and every reachable state, ++ and -- (prefix and postfix) are inverse, postfix returns the previous position as an iterator, const and non-const iterators agree, equality holds exactly for equal positions, distance and repeated increment agree, and operations that the standard says preserve references (node insertions and erasures elsewhere, deque end insertions, container growth below capacity) leave references and iterators to other elements valid and unchanged.",
  ["histories", "inputs"], "every container state reachable by any history, every pair of positions",
  "Tests advance a single iterator over a few elements; postfix operators, mixed const comparisons, cross-block distances and reference stability over later mutations are unchecked.",
  ["deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "vector.hpp", "string.hpp"],
  [("iterator operators", "deque.hpp:36"), ("node-based storage", "list.hpp:30"), ("tree iterator", "map.hpp:40")], ["iterator values, addresses of elements"])

p("C28", "Operation costs stay within the standard's complexity bounds",
  "set and map insert and find call the comparator a number of times logarithmic in the size for every insertion order, an insertion touching no other element and a find copying none; vector and string push_back allocate and move elements amortised constant times; deque pushes move no existing element and allocate amortised constantly, and a deque or queue holds room proportional to the most elements it has held, however many pass through it; list and forward_list insert and erase touch no other element.",
  ["histories", "inputs"], "every insertion order (ascending, descending, alternating, random) and size",
  "The tests' containers have a few elements, so linear and logarithmic behaviour are indistinguishable.",
  ["set.hpp", "map.hpp", "vector.hpp", "string.hpp", "deque.hpp", "list.hpp", "forward_list.hpp"],
  [("red-black balance", "set.hpp:239"), ("doubling growth", "vector.hpp:187"), ("block storage", "deque.hpp:326")], ["comparator calls, element copies/moves, allocations"])

p("C29", "Arguments may alias the container they are given to",
  "Passing a cest container or string one of its own elements or its own contents (push, insert or append of an own element or of itself, also when the operation must reallocate; assignment of a string from a pointer into itself; comparison and search with itself) has the effect it would have with an independent copy of the argument.",
  ["histories", "inputs"], "every container state, in particular those where the operation reallocates, and every own element or suffix as argument",
  "No test passes a container a reference to its own contents.",
  ["vector.hpp", "string.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp"],
  [("order of reallocation and copy", "vector.hpp:187"), ("append before freeing the old buffer", "string.hpp:187"), ("assignment from a C string", "string.hpp:219")], ["contents after the call"])

p("C30", "Distinct objects and const access are free of data races",
  "Different threads may use different cest objects without synchronisation, including objects copied from one another and shared_ptr copies owning one object (destroyed exactly once, by the last owner); several threads may call const operations (access, iteration, find, size, copying, comparison, c_str) of one object at once, and write to different elements of one container; math and character functions may be called from any thread. None of this is a data race and every thread sees the results it would see alone.",
  ["schedules", "histories"], "every schedule of threads and every history of such operations",
  "No test starts a thread.",
  ["vector.hpp", "string.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "shared_ptr.hpp", "functional.hpp", "cmath.hpp", "cctype.hpp"],
  [("use count", "shared_ptr.hpp:50"), ("const find of set and map", "set.hpp:190"), ("c_str and data", "string.hpp:240"), ("no mutable global state", "cmath.hpp:1")], ["ThreadSanitizer reports", "results of each thread"])

p("C31", "Failures in smart pointers, functions and streams are contained",
  "When an allocation, or the user's own code (object constructor, function target's copy or call), throws while a shared_ptr, unique_ptr, function, string stream or in-memory file is being made, copied, assigned, called, opened or given new contents, the exception reaches the caller, nothing is leaked or destroyed twice, an object handed to a shared_ptr whose control block cannot be allocated is deleted with its deleter, and every object that existed before is unchanged and usable.",
  ["fault_sequences", "histories"], "every history of such operations, with an exception injected at every possible allocation or call of user code",
  "No test throws from a target, an object or an allocation.",
  ["shared_ptr.hpp", "memory.hpp", "functional.hpp", "sstream.hpp", "cstdio.hpp"],
  [("control block allocation", "shared_ptr.hpp:110"), ("copy of the target", "functional.hpp:60"), ("make_unique", "memory.hpp:120"), ("string buffer", "sstream.hpp:40")], ["exception at the caller", "object and heap balance", "state of every object afterwards"])

p("C32", "Containers accept every element type the standard's containers do",
  "vector, deque, list, forward_list, set, map and queue hold any element type that meets the requirements of the operations used, and treat it by its own copy, move, assignment and destruction only: types without default constructor or assignment, move-only types (throwing moves included), types emplaced in a list that can be neither copied nor moved, types with greedy or initializer-list constructors, with deleted operator new or comma, final, polymorphic, over-aligned, empty and aggregate types, enumerations, pointers, bool, and types that contain containers of themselves. Each behaves as in the standard container.",
  ["histories", "inputs"], "every such element type and every operation history",
  "The tests instantiate the containers with ints, doubles and one owning class.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "queue.hpp"],
  [("construction in raw storage", "vector.hpp:48"), ("nodes", "list.hpp:54"), ("nodes", "forward_list.hpp:29"), ("erase by shifting", "vector.hpp:213"), ("emplace", "list.hpp:228")], ["contents after each operation", "the program compiles"])

p("C33", "Values are handed over by move, never copied needlessly",
  "No operation of a cest container, queue or unique_ptr copies elements more often than the standard's does (except vector::erase, self-assignment, and a vector that must copy in order to grow): an rvalue pushed, inserted or emplaced is moved into its place and not copied, growing a vector whose elements can be moved without throwing copies none, list emplace makes the element from its arguments without a copy or move, swapping and moving vectors, popping, erasing nodes, finding and refused insertions copy and move nothing, a queue takes over the container it is given by move, and make_unique passes its arguments on as they were given.",
  ["histories", "inputs"], "every history of such operations and every copyable element type, whether its move may throw or not",
  "A copy in place of a move gives the same contents, so tests of contents cannot see it.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "queue.hpp", "memory.hpp"],
  [("growth", "vector.hpp:230"), ("push of an rvalue", "deque.hpp:294"), ("emplace", "list.hpp:237"), ("push of an rvalue", "queue.hpp:35"), ("make_unique", "memory.hpp:131")], ["copies and moves of elements around each call", "state of the value given"])

p("C34", "Stream buffers of the user's own work under cest's streams",
  "A class derived from cest::basic_streambuf which overrides any of underflow, uflow, pbackfail, xsgetn and sync (handing out its characters in pieces of any size or one at a time, with or without room to step back, pausing, failing or throwing at any point), used under a cest istream or a stream class of the user's own, delivers through get, read, unget, sgetc, sbumpc, snextc, sungetc, sgetn and pubsync the characters, counts, states and exceptions that the same class gives over std::basic_streambuf, for every character type and character traits class; flushing an ostream synchronises it, a copy of a buffer has the original's get area, and the bitmask operators of openmode, iostate and fmtflags give what std's do.",
  ["inputs", "histories", "faults"], "every such class, content and history of calls, with a pause or exception at every point",
  "The tests read string streams only; their buffer never refills, steps back over a refill, or throws.",
  ["streambuf.hpp", "istream.hpp", "basic_ios.hpp", "ostream.hpp", "ios_base.hpp"],
  [("get area", "streambuf.hpp:41"), ("refilling", "streambuf.hpp:134"), ("bulk reads", "streambuf.hpp:154"), ("exceptions become states", "basic_ios.hpp:91"), ("unget", "istream.hpp:194"), ("flush", "ostream.hpp:159"), ("bitmask types", "ios_base.hpp:34")], ["characters, counts and states after each call", "exceptions reaching the caller", "calls of sync"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
import re
for d in P:
    assert len(d["title"]) <= 80, d["id"]
print(len(P), "properties")
