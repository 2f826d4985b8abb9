"""Which harness decides which property, and how many cases each tier runs."""
DIFF = "property-based testing: generated operation histories run on %s and on cest under ASan/UBSan, every observation compared; failures shrunk to a replay file"
TRUST = "Random search over a bounded history space, so absence of a counterexample is evidence, not proof. Trusts libstdc++ as the reference, clang 18 and its sanitizers."

CHECKS = {
    "C01": {"parts": [{"src": "c01.cpp", "quick": 160000, "thorough": 3000000}],
            "technique": DIFF % "std::vector", "note": "Histories of up to 240 operations over three vectors and eight element types. " + TRUST},
    "C02": {"parts": [{"src": "c02.cpp", "quick": 160000, "thorough": 3000000}],
            "technique": DIFF % "std::basic_string", "note": "Histories of up to 200 operations over three strings and five character types. " + TRUST},
    "C03": {"parts": [{"src": "c03.cpp", "quick": 40000, "thorough": 800000}],
            "technique": DIFF % "std::deque", "note": "Histories over three deques and five element types, with sizes up to 9000 elements (about nine storage chunks). " + TRUST},
    "C04": {"parts": [{"src": "c04.cpp", "quick": 200000, "thorough": 3000000}],
            "technique": DIFF % "std::list", "note": "Histories of up to 220 operations over three lists, usually of up to 120 and at times of up to 2000 elements. " + TRUST},
    "C05": {"parts": [{"src": "c05.cpp", "quick": 200000, "thorough": 3000000}],
            "technique": DIFF % "std::forward_list", "note": "Histories of up to 220 operations over three lists, usually of up to 120 and at times of up to 2000 elements. " + TRUST},
    "C06": {"parts": [{"src": "c06.cpp", "quick": 100000, "thorough": 2000000}],
            "technique": DIFF % "std::set", "note": "Histories of up to 160 operations (bulk insertions included) over three sets of up to about 400, at times 3500 elements under nine orderings. " + TRUST},
    "C07": {"parts": [{"src": "c07.cpp", "quick": 100000, "thorough": 2000000}],
            "technique": DIFF % "std::map", "note": "Histories of up to 160 operations (bulk insertions included) over three maps of up to about 400, at times 3500 entries under nine orderings. " + TRUST},
    "C08": {"parts": [{"src": "c08.cpp", "quick": 60000, "thorough": 1000000}],
            "technique": DIFF % "std::queue", "note": "Histories over three queues on cest and std containers, with bursts past the storage chunk size. " + TRUST},
    "C09": {"parts": [{"src": "c09.cpp", "quick": 80000, "thorough": 2000000}],
            "technique": "property-based testing: generated histories over containers of tracked elements, with an element ledger and a heap ledger as the oracle; failures shrunk to a replay file",
            "note": "Every construction, destruction, copy, move, assignment and read of an element is checked against a ledger of live elements, and element and heap block counts are balanced after each operation and at the end. " + TRUST},
    "C10": {"parts": [{"src": "c10.cpp", "quick": 100000, "thorough": 2000000}],
            "technique": "property-based testing: generated histories over containers with ledger allocators, every block and element address checked against the ledger; failures shrunk to a replay file",
            "note": "Blocks are exactly sized so that ASan sees any access outside them. " + TRUST},
    "C11": {"parts": [{"src": "c11.cpp", "quick": 9000, "thorough": 300000}],
            "technique": "property-based testing with systematic fault injection: generated histories replayed with an exception thrown at each element operation and heap allocation in turn, against a model, an element ledger and a heap ledger; failures shrunk to a replay file",
            "note": "Faults are exceptions from element constructors, copies, assignments, throwing moves and operator new; comparators throw too. " + TRUST},
    "C12": {"parts": [{"src": "c12.cpp", "quick": 400000, "thorough": 5000000}],
            "technique": DIFF % "std::unique_ptr", "note": "Deletions are logged by the pointees, in order, and compared after every operation; ASan sees double deletions, uses after deletion and mismatched sizes. " + TRUST},
    "C13": {"parts": [{"src": "c13.cpp", "quick": 400000, "thorough": 5000000}],
            "technique": DIFF % "std::shared_ptr", "note": "Deletions and deleter calls are logged, in order, and compared after every operation together with every use_count. " + TRUST},
    "C14": {"parts": [{"src": "c14.cpp", "quick": 300000, "thorough": 5000000}],
            "technique": DIFF % "std::function", "note": "Targets log their calls and own heap state; eighteen signatures, copies of arguments counted. Empty functions are outside the property. " + TRUST},
    "C15": {"parts": [{"src": "c15.cpp", "quick": 300000, "thorough": 5000000}],
            "technique": DIFF % "std string streams", "note": "Two streams per history, char and wchar_t, every open mode that allows construction. Formatted input, getline and peek are not offered by cest. " + TRUST},
    "C16": {"parts": [{"src": "c16.cpp", "quick": 100000, "thorough": 3000000}],
            "technique": "property-based testing: generated histories of opens, reads and closes run on a reference model and on cest under ASan/UBSan, every observation and the heap balance compared; failures shrunk to a replay file", "note": "Buffers are exactly sized heap blocks, overwritten and freed after opening. " + TRUST},
    "C17": {"parts": [{"src": "c17.cpp", "quick": 80000, "thorough": 1500000, "extra": ["-Wno-format-security", "-Wno-format"]}],
            "technique": "property-based testing: generated write sequences run through std and through cest with the process's descriptors redirected to files, bytes, flush points and return counts compared; failures shrunk to a replay file", "note": "Both descriptors are memory files, so buffering is that of a redirected program; every second case is repeated with a buffer of its own set on each of the three streams. " + TRUST},
    "C18": {"parts": [{"src": "c18.cpp", "quick": 300000, "thorough": 6000000}],
            "technique": "property-based testing: generated arguments over every magnitude, sign and branch boundary, each result compared with the C library within a stated tolerance, with oddness and evenness as metamorphic relations; failures shrunk to a replay file", "note": "Trusts the C library's functions as the true values (their error is far below the tolerances). sin and cos are compared up to 1000000, exp up to 709, sinh and cosh everywhere. Random search, not proof."},
    "C19": {"parts": [{"src": "c19.cpp", "quick": 300000, "thorough": 6000000}],
            "technique": "property-based testing: generated arguments next to integers and over every magnitude, compared exactly with the C library and with an independent product; failures shrunk to a replay file", "note": "Exponents up to 300000, and the extreme ones of bases that need no precision. Random search, not proof."},
    "C20": {"parts": [{"src": "c20.cpp", "quick": 40000, "thorough": 400000}],
            "technique": "property-based testing: generated call sequences and repeated complete enumeration of the 257 arguments, compared with the C library", "note": "The argument space is enumerated completely; sequences show that results do not depend on earlier calls."},
    "C21": {"parts": [{"src": "c21.cpp", "quick": 300000, "thorough": 6000000}],
            "technique": DIFF % "std::complex", "note": "float and double; magnitudes between 1e-140 and 1e140 (float 1e-16 and 1e16) so that no intermediate result over- or underflows. " + TRUST},
    "C22": {"parts": [{"src": "c22.cpp", "quick": 80000, "thorough": 1500000, "extra": ["-w"]}],
            "technique": "property-based testing: generated sequences of rotations of generated subsets of 64 variables, against std::rotate on a model, with copies and moves counted; failures shrunk to a replay file", "note": "Arity 0 to 64, eight value types. Random search, not proof."},
    "C23": {"parts": [{"src": "c23.cpp", "quick": 60000, "thorough": 1500000, "extra": ["-w", "units=7"]}],
            "technique": DIFF % "the std containers with the same algorithm calls", "note": "Where the standard leaves an order unspecified only the guaranteed part is compared. " + TRUST},
    "C24": {"module": "c24",
            "technique": "property-based testing: generated programs over every component evaluated by the compiler in constant expressions and again at run time over cest and over std, the digests of all observations compared; failures shrunk to a replay file",
            "note": "A constant expression that leaks or has undefined behaviour does not compile, which is a violation. Programs have up to about 30 operations; clang's evaluator is the judge of constancy. " + TRUST},
    "C25": {"module": "c25",
            "technique": "property-based testing: generated multi-translation-unit programs with random header subsets and orders, compiled, linked and run; digests and output compared with those of the unit that includes everything and with the expected bytes; failing programs shrunk to the fewest units and headers",
            "note": "clang 18 with libstdc++. Every header is also included alone and twice. Random search over subsets and orders, not proof."},
    "C26": {"parts": [{"src": "c26.cpp", "quick": 45000, "thorough": 1200000}],
            "technique": "property-based testing: generated histories of copies, moves, assignments and mutations over five objects under ASan/UBSan; after each step every object is observed and compared with its own earlier observation (untouched objects), with the source's (copies), or with its twin's (same mutations); failures shrunk to a replay file",
            "note": "26 types, nests of containers included. " + TRUST},
    "C27": {"parts": [{"src": "c27.cpp", "quick": 60000, "thorough": 1200000}],
            "technique": "property-based testing: generated histories against a model of element identities; the laws of each iterator category checked at generated positions, and kept iterators and references re-examined after every later operation that must leave them valid, under ASan; failures shrunk to a replay file",
            "note": "Validity rules are those of the C++ standard for each container; for strings none is assumed across changes. " + TRUST},
    "C28": {"parts": [{"src": "c28.cpp", "quick": 30000, "thorough": 400000}],
            "technique": "property-based testing: generated insertion patterns and histories with counting comparators, allocators, elements and character traits; the counts around every call and over whole histories compared with the stated bounds; failures shrunk to a replay file",
            "note": "Bounds are two to four times what the present code needs, so that another implementation of the same complexity passes: 8 log2 n + 16 comparisons, 5 log2 n + 12 growths of a vector or string, 12 copies per element in all, 2 copies per deque push. " + TRUST},
    "C29": {"parts": [{"src": "c29.cpp", "quick": 120000, "thorough": 2000000}],
            "technique": "property-based testing: generated histories of calls whose arguments are the container's own elements or contents, against the std container given an independent copy of each argument, under ASan/UBSan; failures shrunk to a replay file",
            "note": "Arguments moved from the container into itself are excluded, as in the standard. " + TRUST},
    "C30": {"parts": [{"src": "c30.cpp", "quick": 16000, "thorough": 300000, "fuzz_s": 0, "threads": True, "flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"], "extra": ["-w"]}],
            "technique": "property-based testing: generated programs of two to four threads over private objects, copies of one another, and shared objects under const access, run with real threads under ThreadSanitizer, each thread's observations compared with those of the same operations alone; failures shrunk to a replay file",
            "note": "ThreadSanitizer's happens-before analysis reports a race whether or not the accesses collide in time, so the schedule matters little; within its bounded access history it may miss some. " + TRUST},
    "C31": {"parts": [{"src": "c31.cpp", "quick": 30000, "thorough": 800000}],
            "technique": "property-based testing with systematic fault injection: generated histories over pointers, functions, streams and files, replayed with an exception thrown at each allocation and each call of user code in turn, against a model of owners and states, an object ledger and a heap ledger; failures shrunk to a replay file",
            "note": "Histories of up to 18 operations; every fault point reached is tried. " + TRUST},
    "C32": {"parts": [{"src": "c32.cpp", "quick": 60000, "thorough": 1000000, "extra": ["-w", "units=10"]}],
            "technique": DIFF % "the std containers of the same awkward elements",
            "note": "Twenty element types; a container that no longer compiles for one of them is a violation too. " + TRUST},
    "C33": {"parts": [{"src": "c33.cpp", "quick": 80000, "thorough": 2000000}],
            "technique": DIFF % "the std containers, with the copies and moves of elements counted around every call",
            "note": "Three kinds of element. Where a vector has to copy in order to grow, only calls that do not grow it are compared. vector::erase, which copies, is outside the property. " + TRUST},
    "C34": {"parts": [{"src": "c34.cpp", "quick": 120000, "thorough": 3000000}],
            "technique": DIFF % "the same buffer class over std::basic_streambuf",
            "note": "Five ways of handing characters out, char, wchar_t and two traits classes; flush is compared on streams that are good. " + TRUST},
}
