"""Property texts. bin/gen.py writes properties.jsonl and MANIFEST.json from this and bin/registry.py."""
C = "src/korin/core/public/"
P = "src/korin/core/private/"
PROPS = []


def prop(id, title, statement, over, text, cant, files, mech, state=(), observe=(), level_note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, cant=cant,
                      files=files, mech=mech, state=list(state), observe=list(observe), level_note=level_note))


prop("C01", "Array behaves as a plain sequence under every operation history",
     "After any history of appending, inserting, indexing, resizing, removing, emptying, resetting and printing, an array holds exactly the elements a plain "
     "sequence would, in the same order, with length, forward, backward and const iteration, indexing and comparison all agreeing, and what was given as an argument (a variable or an item of the array itself) is left as it was. "
     "This holds for element types of every size, trivially copyable or not, across every growth and shrink of the storage. "
     "Excluded: elements of non-trivial type left unset by writing past the end, and an array that was moved from.",
     ["histories", "inputs"], "all operation histories to the depth bound from several start shapes, for int, odd-sized, self-copying and lifetime-tracked elements; all growth lengths to the bound",
     "Tests push a handful of ints; relocation, gaps, growth steps and non-trivial elements interact over histories they never take.",
     [C + "containers/array.h", C + "templates/iterator.h", C + "hal/platform_memory.h"],
     [("resize/relocate and element move", C + "containers/array.h"), ("moveElements/copyElements", C + "generic/generic_platform_memory.h")],
     observe=["Array public interface", "AddressSanitizer", "counts of live element objects and blocks"])

prop("C02", "List behaves as a plain sequence, linked correctly in both directions",
     "After any history of pushing and popping at both ends, inserting before or after a link, removing links and emptying, a list visits the same elements as a plain "
     "sequence would, forward from its head and backward from its tail, and its length agrees. "
     "A removed link leaves its neighbours joined to each other, its value is handed back where the operation returns it, every other link stays valid, and what was given as an argument (a variable or an item of the list itself) is left as it was.",
     ["histories"], "all operation histories to the depth bound over all positions, for int and lifetime-tracked elements",
     "Broken back links or a stale tail show only when a later operation goes through them; tests do one or two operations and iterate forward.",
     [C + "containers/list.h"],
     [("link insertion and removal", C + "containers/list.h")], observe=["List public interface", "links' next and previous", "AddressSanitizer"])

prop("C03", "BinaryTree is an ordered multiset over a balanced red-black tree",
     "In every state reachable by plain, unique and replacing insertions, by removals, and by copying or assigning such a tree, in-order iteration forward and backward yields exactly the stored items in "
     "order of the compare policy, and every lookup (find, lower/upper bound and the like) returns what a scan of that order would. "
     "The tree obeys the red-black rules (black root, no red node with a red child, equal black heights), so that its depth is at most twice the logarithm of its size, an insertion leaves every other item where it is, and a removal takes out one item and leaves the order of all others.",
     ["histories", "inputs"], "breadth-first closure of all reachable tree shapes and colourings up to the node bound, for distinct and duplicate keys",
     "Rebalancing has many shape-dependent cases; the tests insert one or two fixed sequences and never check balance.",
     [C + "containers/tree.h"],
     [("insertion and removal rebalancing, threading", C + "containers/tree.h")],
     state=[("node colour and links", "red-black structure with parent/next/prev threading", C + "containers/tree.h")],
     observe=["tree public interface and node accessors"])

prop("C04", "Map is a dictionary with one value per key and ordered iteration",
     "After any history of insertions, indexing, lookups, emplacements and removals, a map holds for each key the value a dictionary would hold, exactly one entry per key, "
     "reports whether each operation found or changed something as documented, and iterates in the order of its compare policy. "
     "Operations with one key never disturb the value of another, an insertion leaves references and iterators to other entries valid, and keys and values given as arguments (variables or those of the map itself) are left as they were.",
     ["histories", "inputs"], "all operation histories over a small key universe; all insertion orders x removal orders; int, string and reverse-ordered keys",
     "Tests insert a few keys once; interactions of replacement, removal and rebalancing across histories are not sampled.",
     [C + "containers/map.h", C + "containers/tree.h", C + "containers/pair.h"],
     [("lookups and insertion through the pair tree", C + "containers/map.h")], observe=["Map public interface"])

prop("C05", "Set is a mathematical set: membership, algebra and inclusion order",
     "Any history of adding and removing leaves a set with exactly the members a mathematical set would have, iterated in compare order without repetition. "
     "Union, intersection, difference and symmetric operators, in place or not, give the mathematical result and leave the operands that are not assigned to unchanged; "
     "equality and (strict) inclusion comparisons and any/all queries agree with the definitions, also when both operands are the same set.",
     ["histories", "inputs"], "all ordered pairs of subsets of a small universe, each built along several histories, through every operator; all membership histories",
     "Each operator is a merge over two ordered iterations with end cases; tests try one overlapping pair.",
     [C + "containers/set.h", C + "containers/tree.h"],
     [("merge loops of the set operators", C + "containers/set.h")], observe=["Set public interface"])

prop("C06", "Copies are independent and moves transfer, for every container",
     "Copy construction and copy assignment of arrays, lists, trees, maps, sets, strings, tuples and pairs yield an equal value, whatever the destination held before; later changes to either side never show in the other. "
     "Move construction and move assignment give the destination the source's former value, release what the destination held, and leave a source that can be destroyed and assigned to; a moved-from array, list, tree, map or set is empty and can be filled again. "
     "All of this holds for containers nested in containers, too, and self copy-assignment changes nothing (excluded: self move-assignment, and copying or moving containers that own their allocator by value).",
     ["histories", "inputs"], "all states of two objects of a type reachable by mutations, copies and moves within the size bounds, and every step from each; all histories of two or three objects to the depth bound; all pairs of tree shapes; all pairs of array capacities and counts",
     "Sharing bugs need two objects and a later mutation of one; tests copy once and compare.",
     [C + "containers/array.h", C + "containers/list.h", C + "containers/tree.h", C + "containers/map.h", C + "containers/set.h", C + "containers/string.h", C + "containers/tuple.h", C + "containers/pair.h"],
     [("copy/move constructors and assignments", C + "containers/")], observe=["public interfaces", "object and block accounting"])

prop("C07", "Containers construct and destroy each element once and return all memory",
     "Under any history, every element placed in a container is constructed once, destroyed exactly once, and never used after destruction; when the container is destroyed, no element and no block remains. "
     "Every block is obtained from and returned to the allocator the container was given (one passed by pointer, one the container owns, or the global one at the time the container was made), and to no other, with none returned twice or touched after return. "
     "A container keeps its allocator when it is copied to; a move hands the blocks and their allocator over to the destination; a copy-constructed container uses the global allocator.",
     ["histories", "configurations"], "all states of two containers with their allocators (given, owned or global) reachable by operations, copies and moves within the size bounds, every step from each, and destruction from each",
     "A leak or double destruction has no visible result in a test that only compares values.",
     [C + "containers/array.h", C + "containers/list.h", C + "containers/tree.h", C + "hal/malloc_object.h", C + "hal/memory_base.h"],
     [("element construction/destruction and MallocObject", C + "hal/malloc_object.h")], observe=["registry of live objects", "recording allocator"])

prop("C08", "String editing, conversion and formatting agree with a reference text",
     "After any history of appending, inserting, removing, slicing, splicing, case conversion and joining, a string's characters, length, terminator and iteration equal those of a reference text. "
     "Strings made from numbers or with a format equal what the C formatting rules give, whatever the length of the result. "
     "What is appended or spliced may be part of the string itself (excluded: embedded NUL characters).",
     ["histories", "inputs"], "all editing histories to the depth bound; all splices of small strings; a grid of numbers by magnitude, sign, precision and base; every formatted length across the buffer sizes",
     "Off-by-one errors in terminator and growth arithmetic depend on exact lengths; tests use a few literals.",
     [C + "containers/string.h", C + "containers/array.h", C + "generic/generic_platform_strings.h"],
     [("character array with terminator", C + "containers/string.h")], observe=["String public interface", "AddressSanitizer"])

prop("C09", "String comparison, search and replacement agree with their definitions",
     "For all texts, equality and ordering are those of lexicographic comparison of (plain, signed) characters, case-insensitive equality ignores ASCII case only, and byte-wise memory copy, move and compare match their C definitions on all offsets. "
     "Finding a character or pattern, forward or from any start position, returns the first true occurrence or the documented not-found value, also for empty and overlapping patterns. "
     "Replacing all occurrences substitutes each non-overlapping occurrence from left to right and nothing else.",
     ["inputs"], "all texts, patterns, replacements and start positions over small alphabets up to the length bounds; all byte pairs",
     "Mismatch handling in search depends on the self-overlap of the pattern; tests search one literal.",
     [C + "containers/string.h", C + "generic/generic_platform_strings.h", C + "generic/generic_platform_memory.h"],
     [("pattern search and comparison", C + "containers/string.h")], observe=["String and PlatformStrings/Memory interfaces"])

prop("C10", "Sorting yields an ordered permutation and touches nothing else",
     "For every input range, sorting leaves a permutation of the input ordered by the comparator, and partitioning leaves the pivot at the returned position with nothing greater before it and nothing smaller after it. "
     "Sorting by key keeps every argument with its key, and the indirect sort yields indices that list the keys in order. "
     "Nothing outside the range is read or written, and objects are neither duplicated nor lost.",
     ["inputs"], "every weak order (all tie patterns) of every sequence up to the length bound, through pointers and iterators, for plain and tracked elements, ascending, descending and magnitude comparators",
     "Partition schemes fail on particular tie patterns or range ends; tests sort one random array.",
     [C + "algorithm/sort.h"],
     [("partition and recursion", C + "algorithm/sort.h")], observe=["resulting sequences", "guard elements around the range"])

prop("C11", "A memory pool hands out each of its blocks to one owner at a time",
     "Under any history of acquiring and releasing, a fixed pool hands out aligned, pairwise disjoint blocks inside its buffer, each usable in full, until all are in use, and only then refuses; "
     "a released block becomes available again, and counts of free and used blocks are exact. "
     "The allocator built on it refuses requests that do not fit its block, preserves the content of live blocks on reallocation, and leaves other blocks alone.",
     ["histories", "configurations"], "all acquire/release/alloc/free/realloc histories of pools of up to 4 blocks; all block sizes and alignments in a grid",
     "Free-list corruption shows some operations later, for particular release orders; tests allocate and free in one order.",
     [C + "hal/malloc_pool.h", P + "hal/malloc_pool.cpp"],
     [("intrusive free list", C + "hal/malloc_pool.h")], observe=["addresses handed out", "block contents", "AddressSanitizer"])

prop("C12", "A growing pool allocator reuses blocks and returns all its memory",
     "Under any history of allocating, reallocating and freeing, a growing pool allocator hands out aligned, pairwise disjoint, fully usable blocks and never refuses a request that fits a block. "
     "It takes more system memory only when every block it has is in use, returns freed blocks to the pool they came from for reuse, and on destruction returns all the memory it took, wherever the system puts the pools. When the system refuses memory only the request at hand fails.",
     ["histories", "configurations"], "all histories over up to three blocks per pool; all freeing orders; all orders of up to seven pool addresses; a refusal at every growth; a grid of block sizes and alignments",
     "Which pool owns a block and when pools are exhausted depends on the freeing order; tests use few blocks.",
     [C + "hal/malloc_pool.h", P + "hal/malloc_pool.cpp"],
     [("pool directory and search", C + "hal/malloc_pool.h")], observe=["addresses", "intercepted posix_memalign and free"])

prop("C13", "General allocators hand out usable, disjoint, aligned memory of the asked size",
     "The binned and system allocators return blocks that are aligned as asked, disjoint from every block in use and writable over the whole requested size, for every size they serve, and reuse or return what is freed. "
     "When the system refuses memory only the request at hand fails; reallocation by the system allocator keeps the common prefix; the binned allocator does not implement it. "
     "An object allocator obtains and returns exactly sized and aligned blocks from the allocator it refers to or owns.",
     ["histories", "inputs", "configurations"], "all histories over bucket-boundary sizes, every size in the served range, all reallocation pairs, all histories of object allocators over a recording allocator",
     "Bucket selection errs only at particular sizes; tests allocate one size.",
     [C + "hal/malloc_binned.h", P + "hal/malloc_binned.cpp", C + "hal/malloc_ansi.h", P + "hal/malloc_ansi.cpp", C + "hal/malloc_object.h"],
     [("bucket index", P + "hal/malloc_binned.cpp"), ("aligned reallocation", P + "hal/malloc_ansi.cpp")], observe=["addresses and contents", "intercepted system allocation"])

prop("C14", "A regular expression accepts exactly the language of its pattern",
     "A compiled pattern accepts an input if and only if the input belongs to the language denoted by the pattern's literals, any-character, character classes and ranges, negated classes, escapes, groups, alternation and repetition. "
     "The verdict does not depend on what the same expression matched before, nor on whether the automaton's empty transitions were removed. "
     "An automaton put together with the builder accepts the language its steps denote, positive and negative lookaheads included (excluded: malformed patterns, quantifiers stacked on a quantifier other than a count, empty classes, escapes of letters and digits with no documented meaning).",
     ["inputs", "histories"], "all patterns generated by a grammar up to the size bound x all inputs over a small alphabet up to the length bound, against an independent matcher over sets of end positions",
     "The set of (pattern, input) pairs is unbounded and automaton construction has quadratically many operator interactions; tests try a few patterns.",
     [C + "regex/regex.h", C + "regex/automaton.h", C + "regex/state.h", C + "regex/executor.h", P + "regex/regex.cpp"],
     [("construction of states, cloning of repeated groups, removal of empty transitions", C + "regex/automaton.h")], observe=["match results"])

prop("C15", "Compiling and matching a regular expression terminates and stays in bounds",
     "For every well-formed pattern and every input, compiling and matching terminate, read only the pattern and the input up to their terminators, and release all memory they took, also when a match is abandoned half-way. "
     "The steps a match takes stay bounded by the size of the automaton and the length of the input, for nested repetitions too (no exponential backtracking).",
     ["inputs"], "all pattern strings over the syntax alphabet up to the length bound x inputs",
     "A nonterminating construction or a read past the terminator needs a particular nesting of operators.",
     [C + "regex/automaton.h", C + "regex/state.h", C + "regex/executor.h", P + "regex/regex.cpp"],
     [("epsilon closure and removal, breadth-first execution", C + "regex/automaton.h")], observe=["AddressSanitizer", "watchdog", "block accounting"])

prop("C16", "Optional holds at most one value, constructed and destroyed exactly once",
     "After any history of constructing, assigning, emplacing, moving, resetting and reading, an optional reports a value exactly when one was last put in and not taken out, and yields that value. "
     "Each value is constructed once and destroyed once, aligned for its type, a copy is independent of the original, and a value whose construction fails leaves the optional consistent. "
     "Excluded: which valid state a moved-from value is in, and self move-assignment.",
     ["histories"], "all histories of two optionals to the depth bound, for trivial, tracked, string and over-aligned values",
     "Double or missing destruction depends on the previous state of both operands; tests set a value once.",
     [C + "templates/optional.h"], [("in-place value and flag", C + "templates/optional.h")], observe=["Optional interface", "registry of live objects"])

prop("C17", "Function calls the callable it was given and owns its own copy of it",
     "After any history of binding, copying, assigning, moving and calling, a function object reports whether it is bound, and calling it runs the callable last bound to it with the given arguments and returns its result. "
     "State inside a bound callable belongs to that function object alone: copies have state of their own, and later changes to the original callable do not show. "
     "A call neither copies nor moves the callable and passes on what it throws, and each held callable is destroyed exactly once and its memory returned.",
     ["histories"], "all histories of two functions to the depth bound over free functions, small, large, stateful, const and lifetime-tracked callables",
     "Sharing or leaking of a held callable needs a copy and a later call or destruction.",
     [C + "templates/function.h"], [("type-erased callable holder", C + "templates/function.h")], observe=["call results", "registry of live objects", "system memory"])

prop("C18", "Atomics are linearizable and order memory across threads",
     "In every interleaving of concurrent loads, stores, assignments, increments, decrements, additions, subtractions and exchanges on atomics, each operation takes effect indivisibly at one moment and returns the value that moment implies; no update is lost. "
     "With the default ordering all threads agree on one order of all operations across variables, and a release store seen by an acquire load publishes everything written before it. "
     "Arithmetic wraps at the type's width, and atomic pointers move by whole elements.",
     ["schedules", "inputs"], "all interleavings, and all values a view-based weak memory lets a load return, of all programs of 2-3 threads with 1-3 operations; all byte values sequentially",
     "The tests run one thread.",
     [C + "templates/atomic.h", C + "unix/unix_platform_atomics.h"], [("compiler atomic builtins with an explicit ordering", C + "unix/unix_platform_atomics.h")],
     observe=["values returned by operations, under a controlled scheduler intercepting every access"])

prop("C19", "Vector arithmetic, products, comparisons and conversions are componentwise exact",
     "Two-, three- and four-component vectors of integers and floats add, subtract, multiply, divide and negate componentwise, with vectors or scalars on either side (a scalar minus or divided by a vector included), in place or not, also when a vector is combined with itself. "
     "Dot and cross products, squared sizes, sizes and normals of float vectors, componentwise comparison masks, indexing, named components, constants and conversions between vector types equal their textbook definitions; "
     "comparison operators, inequality included, hold exactly when they hold for all components. The SIMD wrapper of four floats does the same.",
     ["inputs", "configurations"], "all pairs of vectors over a small signed alphabet x every operator x four component types, and extreme values (infinities, NaN, limits) in every component",
     "One wrong lane or operand order shows only for values that differ in that lane; tests use a few symmetric values.",
     [C + "math/vec2.h", C + "math/vec3.h", C + "math/vec4.h", C + "math/simd_float.h", P + "math/math.cpp"], [("componentwise operators and products", C + "math/vec4.h")], observe=["component values"])

prop("C20", "Quaternions compose as the rotations they denote; matrices index and transpose exactly",
     "A quaternion made from an axis and angle, or from a rotation vector (null included), rotates vectors by that rotation; products apply the right operand first, are associative and have the default quaternion as identity; the inverse undoes the rotation; "
     "the angle, the axis and the rotated basis directions can be recovered (but the axis of a whole turn), up to rounding. "
     "A 4x4 matrix is row-major through every constructor and index form, its comparison mask and equality reflect exactly the elements that differ, and transposing exchanges rows and columns.",
     ["inputs"], "all pairs and triples from a finite grid of axes and angles, against rotations in double precision, to a tolerance of a few units in the last place; all masks of differing matrix elements",
     "Sign and order conventions show only for rotations about different axes; tests rotate about one axis.",
     [C + "math/quat.h", C + "math/mat4.h"], [("Hamilton product and vector rotation", C + "math/quat.h")], observe=["component values"])

prop("C21", "Scalar math helpers agree with their mathematical definitions",
     "Minimum and maximum of two or more values of one type, absolute value, base-two logarithm rounded down (zero for zero), integer power with exponents of either sign, and the trigonometric, square root and power functions equal their definitions for every argument in range (signed overflow excluded). "
     "Aligning down yields the greatest multiple of the power of two not above the argument; aligning up yields, as documented, the smallest multiple strictly above it.",
     ["inputs"], "all 8- and 16-bit arguments, all edges of wider types, all alignments, all argument orders of up to five values, all integer powers that fit",
     "Errors sit at sign changes, powers of two and type limits, which tests do not enumerate.",
     [C + "generic/generic_platform_math.h", C + "unix/unix_platform_math.h", C + "linux/linux_platform_math.h"], [("generic helpers", C + "generic/generic_platform_math.h")], observe=["results"])

prop("C22", "Tuples, pairs, fixed arrays and names yield exactly what was put in",
     "Tuples, pairs and fixed arrays yield at each position, by index, by type, by key or through the buffer, what was put there and nothing else, through every construction, copy, move, assignment and write, also from non-constant sources; copies are independent and each element is constructed and destroyed exactly once. "
     "Pairs compare by key with their comparator, also against plain keys; the default comparators are consistent three-way orders. "
     "A name has the length and characters of the literal, buffer or array it was made from, and joining names at compile time concatenates them, terminated.",
     ["histories", "inputs"], "all values of tuples up to four items x all construction and assignment forms, all histories of two tuples, all pairs of pairs x comparators, all fixed arrays of small values, all joins of up to three names",
     "Recursive layouts err at one position or overload only; tests check one tuple and no pair.",
     [C + "containers/tuple.h", C + "containers/pair.h", C + "templates/array.h", C + "templates/name.h", C + "templates/functional.h"],
     [("recursive tuple layout", C + "containers/tuple.h"), ("compile-time concatenation", C + "templates/name.h")], observe=["public interfaces", "registry of live objects"])

prop("C23", "Bulk element operations construct, copy, relocate and destroy exactly the elements of their range",
     "Constructing, copying, relocating and destroying a range of elements does so once for each element of the range and touches nothing outside it, whether elements are plain memory, of an odd size, "
     "copied in their own way, movable only, or tracked. Relocation works for every overlap of source and destination, and leaves no element behind. "
     "Exchanging two values exchanges them, also a value with itself, and moving and forwarding keep an expression's value, constness and category.",
     ["inputs"], "every count, source and destination offset (and so every overlap) within a small exactly sized buffer x five kinds of element; every exchange of small values",
     "Off-by-one counts and wrong copy directions show only for particular overlaps, and double destruction only for elements that notice.",
     [C + "generic/generic_platform_memory.h", C + "templates/utility.h", C + "templates/types.h"],
     [("element-wise memory operations", C + "generic/generic_platform_memory.h"), ("move, forward and swap", C + "templates/utility.h")],
     observe=["element values", "registry of live objects", "AddressSanitizer"])

prop("C24", "Type traits, type transformations and fixed-width types agree with the language",
     "For every type, traits (same type, pointer, pointer of, reference, volatile, integral, array, function, trivial in any respect, base of) answer as the language does, and transformations (removing or adding pointers, references, qualifiers and arrays, naked and decayed types, conditional and enabling types) yield the type the language yields. "
     "Pointer, void and integral are classifications of unqualified types, integral covers the platform's own integers, booleans and characters. "
     "Platform types have the width and sign in their name; non-copyable and non-movable bases forbid exactly that.",
     ["inputs", "configurations"], "all types in the closure of the base types under const, volatile, pointer, reference, array and function up to the depth bound x every trait; all pairs of a class hierarchy",
     "Specializations miss combinations of qualifiers, which silently select bitwise copies or reference members elsewhere; tests ask about one or two types.",
     [C + "templates/types.h", C + "templates/base.h", C + "templates/enable_if.h", C + "templates/type_info.h", C + "generic/generic_platform.h", C + "linux/linux_platform.h", C + "unix/unix_platform.h"],
     [("trait specializations", C + "templates/types.h")], observe=["trait values and result types, compared at run time"])

prop("C25", "Debugger displays show exactly what containers and values hold",
     "With the repository's gdb script loaded, displaying an array, list, map, set, string, tuple, optional, atomic, vector or rotation, also nested, constant or through a reference, shows its elements all and in order, its type and size (and a sufficient capacity), "
     "or for strings, optionals and atomics the value itself and (nil) if there is none; no state of theirs makes the display fail. Strings are plain text.",
     ["histories", "inputs"], "all objects that short histories of operations make, including empty, emptied, grown and copied ones, displayed by gdb as values, by command and by reference",
     "No test runs the debugger script, and the layout it reads by name is private.",
     ["extras/gdb/types.py", C + "containers/array.h", C + "containers/list.h", C + "containers/tree.h", C + "containers/map.h", C + "containers/set.h", C + "containers/string.h", C + "containers/tuple.h", C + "templates/optional.h"],
     [("pretty printers", "extras/gdb/types.py")], observe=["text displayed by gdb"])

prop("C26", "Threads that share no object, or only read it, or hand it over, do not disturb one another",
     "Threads may use separate objects of the library at the same time, also when one object was copied or moved from the other: no operation on one (creation, destruction, memory from the global allocator, sorting, formatting and compiling regular expressions included) races with, or changes the outcome of, any operation on another. "
     "Threads may look at one object at the same time through its constant interface: iterating, finding, comparing, printing, copying from it, matching a regular expression. "
     "An object made by one thread and published through an atomic is complete for the thread that takes it (allocators other than the global one belong to one thread at a time).",
     ["schedules", "histories"], "all pairs of uses of 18 kinds of objects, all pairs and triples of readers, all pairs of changes to related objects, all handovers, under all orders of synchronizing operations up to a preemption bound",
     "The tests run one thread; a scratch buffer, cache or count shared behind the interface works in any single-threaded run.",
     [C + "containers/string.h", C + "containers/array.h", C + "containers/list.h", C + "containers/tree.h", C + "containers/map.h", C + "containers/set.h", C + "templates/function.h", C + "templates/optional.h", C + "regex/state.h", C + "regex/automaton.h", C + "regex/executor.h", "src/korin/core/private/hal/malloc_ansi.cpp", C + "algorithm/sort.h"],
     [("unique ids of automaton states", C + "regex/state.h"), ("global allocator", "src/korin/core/private/hal/malloc_ansi.cpp"), ("constant member functions", C + "containers/")],
     observe=["every memory access, intercepted by the compiler's thread instrumentation", "results of operations"])

prop("C27", "Automata over any alphabet accept the language their building steps denote",
     "For every alphabet described by its traits (integers, numbers, structures, symbols that own memory; any value as terminator, strings of any type), an automaton put together with the builder from symbols, ranges, any-symbol, lambdas, lookaheads and states and macros of the user's own, with groups, branches, skips, jumps and repetitions, accepts exactly the inputs and the prefixes its steps denote, before and after removal of empty transitions. "
     "At every step an executor's position and remaining input agree and lie within the input. A printed graph shows every reachable state in full once and every transition once; states are named after their kind, contents and a number of their own.",
     ["inputs", "configurations"], "all balanced programs of builder steps up to the length bound x five alphabets x all inputs up to the length bound, against an independent matcher over sets of end positions",
     "The tests use the alphabet of characters only, where a hard-wired terminator, width or pointer step goes unnoticed.",
     [C + "regex/regex_types.h", C + "regex/automaton.h", C + "regex/state.h", C + "regex/executor.h"],
     [("alphabet traits", C + "regex/regex_types.h"), ("builder", C + "regex/automaton.h"), ("stepping", C + "regex/executor.h")], observe=["match results", "positions of executors", "printed graphs"])

prop("C28", "Containers work over every allocator of the library",
     "Arrays, lists, trees, maps and sets placed over a system, pool, pooled or binned allocator, shared by several containers, owned by one, of exactly the block size the container asks for, or installed as the global allocator (then strings, functions and regular expressions too), hold exactly what their operations put in, with every element aligned; "
     "containers sharing an allocator never disturb one another. The same history again takes no more memory from the system than the first time; when the containers are gone every block of a pool can be had again, and when the allocator is gone all memory has been returned. Excluded: requests an allocator refuses (exhausted, larger or more aligned than its blocks), which containers do not handle.",
     ["histories", "configurations"], "all histories of operations on five containers up to the depth bound from three starting states x seven allocators x element sizes and alignments; all histories of a container alone on an exactly sized allocator",
     "Tests pair each container with the system allocator; a container that writes past its block, or an allocator that hands out a block too small for a container's node, is silent there.",
     [C + "hal/malloc_pool.h", P + "hal/malloc_pool.cpp", C + "hal/malloc_binned.h", P + "hal/malloc_binned.cpp", C + "hal/malloc_ansi.h", P + "hal/malloc_ansi.cpp", C + "hal/malloc_object.h", C + "containers/array.h", C + "containers/list.h", C + "containers/tree.h", C + "containers/map.h"],
     [("allocation by containers", C + "hal/malloc_object.h"), ("pools", P + "hal/malloc_pool.cpp")], observe=["contents", "addresses", "intercepted system allocation"])
