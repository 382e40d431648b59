"""One entry per property: harness sources and what its check enumerates."""
CHECKS = {
    "C01": {
        "src": ["c01_array.cpp"],
        "how": "every operation history up to the depth bound from six start shapes, for trivial, odd-sized, "
               "self-copying and lifetime-tracked elements, compared with a vector after every step",
    },
}
CHECKS["C03"] = {"src": ["c03_tree.cpp"], "how": "breadth-first closure of all red-black trees reachable by insertions and removals up to the node bound"}
CHECKS["C02"] = {"src": ["c02_list.cpp"], "how": "every operation history up to the depth bound, compared with a vector in both directions after every step"}
CHECKS["C04"] = {"src": ["c04_map.cpp"], "how": "every operation history over a small key universe, and every insertion order x removal order"}
CHECKS["C05"] = {"src": ["c05_set.cpp"], "how": "all pairs of subsets of a small universe, each along several histories, through every operator; all membership histories"}
CHECKS["C08"] = {"src": ["c08_string.cpp"], "how": "every editing history up to the depth bound, every splice, a full magnitude grid of numbers, every formatted length"}
CHECKS["C09"] = {"src": ["c09_search.cpp"], "how": "all texts, patterns, replacements and start positions over small alphabets up to the length bounds"}
CHECKS["C10"] = {"src": ["c10_sort.cpp"], "how": "every tie pattern of every sequence up to the length bound, through pointers, array and list iterators"}
CHECKS["C11"] = {"src": ["c11_pool.cpp"], "how": "every acquire/release/alloc/free/realloc history of small pools, every block size and alignment"}
WRAP = ["g++", "-fsanitize=address", "-fsanitize=return"] + ["-Wl,--wrap=" + f for f in ("posix_memalign", "free", "malloc", "calloc", "realloc", "aligned_alloc", "memalign", "malloc_usable_size")]
CHECKS["C12"] = {"src": ["c12_pooled.cpp"], "link": WRAP, "how": "every alloc/free/realloc history over small pools, every freeing order, every block size and alignment; system memory is accounted for"}
CHECKS["C13"] = {"src": ["c13_mallocs.cpp"], "link": WRAP, "how": "every history of bucket-boundary sizes, every size, all realloc pairs; all histories of object allocators against a recording allocator"}
CHECKS["C16"] = {"src": ["c16_optional.cpp"], "how": "every history of two optionals up to the depth bound, for trivial, tracked, string and over-aligned values"}
CHECKS["C17"] = {"src": ["c17_function.cpp"], "link": WRAP, "how": "every history of two functions up to the depth bound over all kinds of callables; memory and lifetimes are accounted for"}
CHECKS["C18"] = {"src": ["c18_atomic.cpp"], "lib": False, "aux": ["tsanrt.cpp"], "link": ["g++"],
                 "flags": ["-O1", "-g1", "-fsanitize=thread", "-fwrapv"],
                 "how": "every interleaving, and every value a view-based weak memory lets a load see, of all small concurrent programs over the atomic operations"}
CHECKS["C14"] = {"src": ["c14_regex.cpp"], "how": "every token sequence of the pattern syntax up to the length bound, all atoms x quantifiers x contexts, all small character classes, all repetition counts, lookaheads through the builder, each against every input up to the length bound and an independent matcher"}

CHECKS["C15"] = {"src": ["c15_regexsafe.cpp"], "how": "every text over the syntax characters up to the length bound, every character in every position, every nesting of repetitions, all counts, all depths; inputs and patterns in exactly sized memory, steps and blocks counted"}
CHECKS["C19"] = {"src": ["c19_vec.cpp", "c19b_vec.cpp", "c19c_vec.cpp", "c19d_vec.cpp"], "how": "every operator, comparison and conversion on every pair of vectors over small alphabets where all results are exact, and on extreme values in up to two components; eight component types, two to four components"}
CHECKS["C20"] = {"src": ["c20_quat.cpp"], "how": "every rotation of a grid of axes and angles, every pair, every triple of a smaller grid, against double precision; every mask of differing matrix elements"}
CHECKS["C21"] = {"src": ["c21_scalar.cpp"], "how": "all 8- and 16-bit arguments, all edges of wider types, all orders of up to five arguments, all bases and exponents that fit"}
CHECKS["C22"] = {"src": ["c22_tuple.cpp"], "how": "all values of tuples, pairs and fixed arrays through every construction, assignment and access form, all histories of two tuples, all comparisons, all joins of up to three names"}
CHECKS["C06"] = {"src": ["c06_copies.cpp"], "how": "all states of two objects of a type that mutations, copies and moves can reach and every step from each; all histories of two and three objects; all pairs of tree shapes; all pairs of array capacities and counts"}
CHECKS["C07"] = {"src": ["c07_lifetime.cpp"], "how": "all states of two containers with recording allocators (given, owned or global) that their operations, copies and moves can reach, every step from each, and destruction from each"}
CHECKS["C23"] = {"src": ["c23_elements.cpp"], "how": "every count, offset and overlap within a small buffer of exactly sized memory, for five kinds of element; every pair of small values exchanged"}
CHECKS["C24"] = {"src": ["c24_types.cpp"], "lib": False, "flags": ["-O0", "-g0"], "how": "every type in the closure of a set of base types under const, volatile, pointers, references, arrays and functions up to the depth bound, through every trait and transformation, against the language"}
CHECKS["C25"] = {"src": ["c25_gdb.cpp"], "cmd": "bin/gdbcheck.py", "technique": "explicit enumeration of all reachable container states within bounds, each displayed by the real debugger script and compared with a model (bounded model checking by execution)", "note": "Trusts gdb and the compiler's debug information; nothing is claimed outside the types and bounds.", "flags": ["-O0", "-g"], "how": "every object that all short histories of containers, strings, optionals and values make, displayed by gdb as a value, by command and through a reference, against the text its model gives"}

RACE = ["memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strnlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strcpy", "strncpy", "strcat",
        "strchr", "strrchr", "strstr", "vsnprintf", "vsprintf", "snprintf", "sprintf", "strtok", "rand", "srand", "random", "setlocale", "strerror", "posix_memalign",
        "free", "malloc", "realloc", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
        "pthread_spin_lock", "pthread_spin_unlock", "pthread_spin_trylock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock",
        "pthread_once", "pthread_self", "sched_yield", "usleep", "nanosleep", "clock_nanosleep"]
CHECKS["C26"] = {"src": ["c26_threads.cpp"], "aux": ["racert.cpp"], "link": ["g++", "-rdynamic"] + ["-Wl,--wrap=" + x for x in RACE], "ldlibs": ["-ldl"],
                 "flags": ["-O1", "-g1", "-fsanitize=thread", "-fno-builtin", "-fwrapv", "-U_FORTIFY_SOURCE"],
                 "technique": "stateless exploration of the real code under a controlled scheduler: all orders of synchronizing operations up to a preemption bound, one schedule per equivalence class, with a happens-before race detector on every access",
                 "note": "Trusts the compiler's instrumentation and the C library's thread safety; schedules are bounded in preemptions, objects in kinds and states.",
                 "how": "every pair of uses of separate objects of 18 kinds, every two and three readers of one object, every pair of changes to an object and one copied or moved from it, every handing over through an atomic, in every order of the library's synchronizing operations up to the preemption bound"}
CHECKS["C27"] = {"src": ["c27_alphabets.cpp", "c27b_alphabets.cpp", "c27c_alphabets.cpp"], "how": "every program of builder steps up to the length bound, over five alphabets, against every input up to the length bound and an independent matcher, before and after the removal of empty transitions; every step of every executor, every printed graph"}
CHECKS["C28"] = {"src": ["c28_allocators.cpp"], "link": WRAP, "how": "every history of operations on five containers up to the depth bound over each allocator of the library, shared, owned, exactly sized or global, compared with models; the same history twice takes the same memory"}
