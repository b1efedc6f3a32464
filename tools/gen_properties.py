#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
H = "src/korin/core/public/"
C = "src/korin/core/private/"
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "A dynamic array is an exact sequence under every edit history",
  "After any history of construction, insertion (single or multiple, at the front, at the end or at any position), removal, popping, indexed writes, clearing, resetting, copying, moving and assignment, a dynamic array holds exactly the elements a mathematical sequence would hold, in the same order, with the same count. Reading by index, through the raw buffer, by forward and backward iteration and by iterator arithmetic and comparison all agree, and references returned by an insertion denote the inserted element. This holds for trivially copyable, for resource-owning and for move-only element types alike, across every capacity growth.",
  ["histories", "inputs"], "every sequence of operations, any element type, any size incl. crossing capacity doublings",
  "containers.array performs a few dozen operations on short arrays of ints/strings; element shifting, growth and assignment depend on the whole history and on the element type's triviality.",
  [H+"containers/array.h", H+"generic/generic_platform_memory.h"],
  [("geometric growth with element relocation", H+"containers/array.h: resizeIfNecessary"), ("overlapping element move", H+"generic/generic_platform_memory.h: moveElements")],
  [("buffer/capacity/count", "contiguous storage, allocated slots, live elements", H+"containers/array.h")])

p("C02", "Every stored element is constructed once and destroyed exactly once",
  "For every container (array, list, ordered tree, map, set) and every history of operations on it, each element that the container holds is a live object constructed exactly once in suitably aligned storage, is never read, assigned or destroyed while not alive, and is destroyed exactly once: when it is removed, replaced, cleared, or when the container dies. When all containers are gone no element and no storage remains.",
  ["histories", "inputs"], "every operation history including insertion in the middle, removal of the last element, growth, copy and move assignment between containers of different sizes",
  "The unit tests use ints and strings and never count constructions or destructions, so leaks, double destruction and use of raw storage pass unnoticed.",
  [H+"containers/array.h", H+"containers/list.h", H+"containers/tree.h", H+"containers/map.h", H+"containers/set.h", H+"generic/generic_platform_memory.h"],
  [("element construct/copy/move/destroy helpers", H+"generic/generic_platform_memory.h"), ("link and node creation and destruction", H+"containers/list.h, "+H+"containers/tree.h")])

p("C03", "Containers draw memory only from their allocator and give all of it back",
  "A container built over a caller-supplied allocator obtains all element storage from that allocator and no other, requests enough bytes with sufficient alignment for its elements, and returns each block exactly once to the allocator it came from, also after moves between containers with different allocators and with an allocator managed by the container itself. A container never outlives or overuses an allocator it manages itself, and it stays usable after it has been moved from.",
  ["histories", "configurations"], "every operation history over global, external, pool and managed allocators, moves and assignments between containers with different allocators",
  "Tests use the default allocator almost exclusively and cannot see which allocator a block came from or went to.",
  [H+"hal/malloc_object.h", H+"containers/array.h", H+"containers/list.h", H+"containers/tree.h"],
  [("typed allocator handle moved with the storage", H+"hal/malloc_object.h"), ("managed-allocator specialisations", H+"containers/array.h, "+H+"containers/list.h, "+H+"containers/tree.h")])

p("C04", "String building and editing give the exact characters, always terminated",
  "Every way of building or editing a string (from C strings, buffers, fills and numbers; appending strings, characters and numbers, even the string to itself; replacing the content with a number; formatting of any length; substrings; splicing; case conversion; copy, move, assignment) yields exactly the characters the operation describes, with the reported length equal to the number of characters and a terminator right after them. Only the addressed string changes, and no byte outside its own storage is read or written.",
  ["histories", "inputs"], "all edit histories, all contents and lengths incl. empty, self-append and formatted output longer than any internal buffer",
  "containers.string checks a handful of short literals; lengths around buffer growth, self-aliasing and long formatted output are never reached.",
  [H+"containers/string.h", H+"containers/array.h"],
  [("append, print and splice on the underlying array", H+"containers/string.h")],
  [("array", "characters plus terminator", H+"containers/string.h")])

p("C05", "String search, comparison and replacement agree with their definition",
  "Finding a substring or character from any start position, listing all (possibly overlapping) occurrences and replacing all occurrences left to right without rescanning the replacement (an empty pattern replaces nothing) return exactly what the definition says, including not-found, empty strings, and patterns or start positions longer than the string. Case-sensitive and case-insensitive comparison (whole strings, or sub-ranges of a given start and length) are zero exactly for equal text, otherwise have the sign of the first differing pair of characters, and all relational operators agree with them. None of these modifies its inputs or reads outside them.",
  ["inputs"], "all texts, patterns, replacements and start positions",
  "Tests compare a few fixed literals; boundary positions, overlaps, empty operands and prefix relations are not covered.",
  [H+"containers/string.h", H+"generic/generic_platform_strings.h"],
  [("naive window scan", H+"containers/string.h: findIndex"), ("character loops", H+"generic/generic_platform_strings.h")])

p("C06", "A linked list is an exact double-ended sequence with intact links",
  "After any history of pushes and pops at both ends, removals of any element (by link or iterator), emptying, copying, moving and assignment, a list holds exactly the elements a sequence would hold, in order, with the right length; walking forward from the head and backward from the tail visit the same elements, and both ends are terminated. Pops report whether an element existed and deliver it; pushing several values never alters the caller's arguments.",
  ["histories", "inputs"], "every operation history, any element type, including removing head, tail and the only element",
  "containers.list pushes a few ints; removal at the ends, assignment between lists of different lengths and backward links are not examined.",
  [H+"containers/list.h"],
  [("doubly linked nodes with head, tail and length", H+"containers/list.h")])

p("C07", "The ordered tree is a sorted multiset under every history",
  "Under any history of insertions, unique insertions, replacements and removals, the ordered tree contains exactly the expected multiset; iterating forward yields it in ascending order (backward in descending order), the reported number of nodes is its size, and min and max are its extremes. Lookup by key finds an element iff one is present, the range from begin(key) to end(key) is exactly the run of equal elements, unique insertion keeps the present element, replacement overwrites a present element, and removal through an iterator removes one element equal to the designated one and returns the position of the following element.",
  ["histories", "inputs"], "all operation histories, all key orders, duplicates, all compare types incl. heterogenous keys",
  "containers.tree inserts short fixed sequences; duplicates, deletion order and removal of inner nodes depend on the tree shape reached by the history.",
  [H+"containers/tree.h"],
  [("red-black insertion/removal with threaded prev/next links", H+"containers/tree.h")],
  [("prev/next threads", "in-order neighbours", H+"containers/tree.h")])

p("C08", "The ordered tree stays a valid, balanced search tree after each operation",
  "After every insertion, removal, copy or move, the tree is a valid red-black tree: the root is black and has no parent, no red node has a red child, every root-to-leaf path has the same number of black nodes, parent links mirror child links, in-order traversal is sorted, and each node's next/previous links are exactly its in-order neighbours. Consequently the depth never exceeds 2*log2(n+1), so lookups stay logarithmic for every insertion and removal order.",
  ["histories", "inputs"], "all insertion and removal histories, sizes up to thousands, adversarial (sorted, alternating) orders",
  "Tests check at most contents; a lost rotation or colour keeps results right while degrading the structure.",
  [H+"containers/tree.h"],
  [("repair after insertion and removal", H+"containers/tree.h: repairInserted, repairRemoved"), ("subtree cloning", H+"containers/tree.h: cloneSubtree")])

p("C09", "A map behaves as a dictionary with unique, ordered keys",
  "Under any history of indexing, insertion, lookup, removal and popping (by key or by iterator), a map associates each key with the value last assigned to it: indexing creates a default value exactly when the key is absent, insertion overwrites, lookup and membership report exactly the present keys and their values, pop delivers the value it removes. Keys are unique, iteration visits each pair once in ascending key order, the count is the number of keys, and values stored through a returned reference persist until that entry is removed.",
  ["histories", "inputs"], "all operation histories and key sets, incl. owning key and value types",
  "containers.map uses a few keys; balance-dependent paths (indexing creating inner nodes, removal of two-child nodes) depend on the history.",
  [H+"containers/map.h", H+"containers/pair.h", H+"containers/tree.h"],
  [("tree of pairs compared by key", H+"containers/map.h")])

p("C10", "Set membership and union, intersection and difference are exact",
  "A set contains exactly the distinct items added and not removed, in ascending order, whatever the history: membership of one, any or all of several items, removal (with or without retrieving the item) and the size are exact. Union, intersection and difference (both the in-place and the value-returning forms, also with empty or identical operands) contain exactly the items mathematics prescribes, and leave every other operand unchanged.",
  ["histories", "inputs"], "all pairs of sets incl. empty, disjoint, nested and aliasing operands",
  "containers.set checks a few small fixed sets.",
  [H+"containers/set.h", H+"containers/tree.h"],
  [("linear merge over threaded trees", H+"containers/set.h")])

p("C11", "Set comparison operators are exactly equality and (strict) inclusion",
  "For any two sets, equality holds iff they have the same items, <= iff every item of the left is in the right, >= iff every item of the right is in the left, and the strict forms < and > iff the inclusion holds and the sets differ. Therefore equality is an equivalence, inclusion is a partial order, and incomparable sets satisfy none of the four orderings.",
  ["inputs"], "all pairs of sets, incl. empty sets, prefixes, and sets differing only beyond the last common item",
  "Only a few pairs are tested; the pairwise merge has different exit paths for prefixes and tails.",
  [H+"containers/set.h"],
  [("parallel in-order walk", H+"containers/set.h: operator<, operator<=, ...")])

p("C12", "Copies are independent, and assignment works for every pair of values",
  "Copying or copy-assigning any container or string (array, list, tree, map, set, string) gives an equal value that shares nothing with its source: later changes to either never show in the other, and the source is unchanged. Moving transfers the exact contents and leaves the source fully reusable (arrays, lists, trees, maps and sets: empty), and assignment in any combination of sizes, including self-assignment and moving in what an element of the receiver itself owns, leaves the value it should.",
  ["histories", "inputs"], "all pairs of container values and all subsequent mutations",
  "Tests copy small containers once and rarely mutate both sides afterwards.",
  [H+"containers/array.h", H+"containers/list.h", H+"containers/tree.h", H+"containers/set.h", H+"containers/map.h", H+"containers/string.h"],
  [("copy/move constructors and assignments", H+"containers/")])

p("C13", "A fixed memory pool hands out disjoint, aligned, reusable blocks",
  "A memory pool (and the allocator over a single pool) hands out at most its configured number of blocks at a time; live blocks are disjoint, lie within the pool, are aligned as requested at construction, and their contents are never touched by the pool while they are live. A released block becomes available again, the free count always equals capacity minus live blocks, an exhausted pool and unservable requests yield null, and ownership queries are true exactly for addresses of the pool.",
  ["histories", "configurations"], "all block counts, sizes, alignments, owned or supplied buffers and all acquire/release histories",
  "memory.memory_pool uses one or two configurations and never fills the blocks with data.",
  [H+"hal/malloc_pool.h", C+"hal/malloc_pool.cpp"],
  [("embedded free list", C+"hal/malloc_pool.cpp")],
  [("head, numFreeBlocks", "free list and its length", H+"hal/malloc_pool.h")])

p("C14", "The growing pool allocator never loses, overlaps or starves blocks",
  "The growing pool allocator serves every request within its block size and alignment, for any configuration, creating a further pool only when every block of the existing pools is in use; live blocks are disjoint, aligned and keep their contents, and released blocks are used again before it grows. Ownership queries are true for every block it handed out and false for foreign addresses, requests beyond the block size or alignment yield null, and destruction returns all memory to the system.",
  ["histories", "configurations"], "all block geometries, initial pool counts and all alloc/free/realloc histories",
  "memory.malloc_pooled allocates a few blocks; pool rotation and the pool index depend on the history across several pools.",
  [H+"hal/malloc_pool.h", C+"hal/malloc_pool.cpp"],
  [("circular list of pools with exhausted ones rotated back, tree index by address", C+"hal/malloc_pool.cpp")],
  [("head/root/numPools", "pool ring, address index, pool count", H+"hal/malloc_pool.h")])

p("C15", "The binned allocator serves every size class with distinct storage",
  "For every request between one byte and its configured maximum, under any bucket configuration, the binned allocator returns a block of at least that size, aligned as required, disjoint from all live blocks and preserving its contents until freed; larger requests yield null. Freed blocks are served again, and reallocation preserves contents up to the smaller size.",
  ["histories", "configurations"], "all sizes, bucket configurations and alloc/free histories mixing size classes",
  "memory.malloc_binned checks a few sizes of the default configuration.",
  [H+"hal/malloc_binned.h", C+"hal/malloc_binned.cpp"],
  [("size to bucket mapping", H+"hal/malloc_binned.h: getBucketIdx"), ("search of the owning bucket on free", C+"hal/malloc_binned.cpp")])

p("C16", "The system allocator and typed allocator handles honour size and alignment",
  "The standard allocator returns for every size and power-of-two alignment a distinct block of at least that size with at least that alignment; reallocation preserves the common prefix of the contents for every pair of sizes, treats null as a fresh allocation and a zero size as a release; freeing null is harmless. Typed allocator handles request exactly the bytes and alignment for the given number of objects from the allocator they were given, and forward release and reallocation to it.",
  ["inputs", "histories"], "all sizes and alignments, all alloc/realloc/free sequences",
  "memory.malloc_ansi tries a few sizes.",
  [H+"hal/malloc_ansi.h", C+"hal/malloc_ansi.cpp", H+"hal/malloc_object.h"],
  [("aligned system allocation", C+"hal/malloc_ansi.cpp")])

p("C17", "Bulk memory primitives act on exactly the given elements",
  "The bulk primitives that construct, copy, move and destroy runs of elements affect each element of the run exactly once, in an order that keeps overlapping moves correct in both directions, for element types with and without non-trivial constructors, and touch nothing outside the run; byte copies, overlapping byte moves and byte comparison (zero iff equal, otherwise with the sign of the first difference) match their definition.",
  ["inputs"], "all lengths, all overlaps, all element types",
  "No unit test calls the primitives directly or with overlapping non-trivial elements.",
  [H+"generic/generic_platform_memory.h"],
  [("trait-dispatched element loops", H+"generic/generic_platform_memory.h")])

p("C18", "A regular expression accepts exactly the language its pattern denotes",
  "For every well-formed pattern of the supported syntax (literals, escapes, any-character, character classes and their negation, groups, alternation incl. empty branches, the greedy quantifiers ? * + {n} {n,} {n,m} also applied to one another, anchors and word boundaries, \\B between two word characters) and every input, a compiled expression accepts the whole input iff the input belongs to the language the pattern denotes. The same holds for automata assembled through the builder interface, including look-aheads, over any alphabet described to the library, and for the optimised and the unoptimised automaton. The answer is the same however often and in whatever order inputs are tried, and after resetting or rebinding an executor at any point. At every step an executor tells the position in the input that belongs to the symbols it has read, and the start and accepted states and the links between states are what the automaton tells.",
  ["programs", "inputs"], "all well-formed patterns of the supported syntax, nested to any depth, and all inputs",
  "regex.* try a few dozen pattern/input pairs; quantifiers over groups, nested alternation and negated classes interact combinatorially.",
  [C+"regex/regex.cpp", H+"regex/automaton.h", H+"regex/executor.h", H+"regex/state.h"],
  [("Thompson-style construction", H+"regex/automaton.h: builder"), ("epsilon elimination", H+"regex/automaton.h: optimizer"), ("depth-first execution", H+"regex/executor.h")])

p("C19", "Compiling and matching never corrupt memory, leak, or fail to terminate",
  "For any pattern whatsoever, well-formed or malformed (with repetition counts small enough for memory), and any input, compiling, matching, printing and destroying an expression terminates, reads nothing outside the pattern and the input, and returns every byte it allocated. Matching takes time polynomial in the size of pattern and input, and does not modify the compiled expression, so any number of matches can follow.",
  ["inputs", "programs"], "all byte strings as pattern and as input, incl. unbalanced brackets, dangling quantifiers, nested quantifiers over empty matches",
  "Only well-formed short patterns are tested.",
  [C+"regex/regex.cpp", H+"regex/automaton.h", H+"regex/executor.h", H+"regex/state.h"],
  [("builder frame handling", H+"regex/automaton.h"), ("state ownership by the automaton", H+"regex/automaton.h: ~Automaton")])

p("C20", "Atomic values are linearizable under concurrent access",
  "Concurrent increments, decrements, additions, subtractions, loads and stores on an atomic integer or pointer behave as if executed one at a time in an order consistent with real time: no update is lost, fetch-style results are all distinct, every operation returns the value before or after its own update as documented, and no data race exists. A sequentially consistent store is seen by every load that follows it, together with all writes made before it.",
  ["schedules", "histories"], "all thread interleavings, all widths and signedness of integers, and pointers",
  "templates.atomic runs one fixed workload and compares a final sum.",
  [H+"templates/atomic.h", H+"unix/unix_platform_atomics.h"],
  [("compiler atomic builtins", H+"unix/unix_platform_atomics.h")])

p("C21", "Independent objects can be used from different threads without races",
  "Threads that each work on their own containers, strings, allocators and regular expressions (including compiling expressions concurrently) never race and each gets exactly the results it would get alone. Concurrent read-only use of one shared container, string or compiled expression is race-free and gives the single-threaded answers.",
  ["schedules", "histories"], "all interleavings of threads on distinct objects, and of readers on shared objects",
  "No test uses threads apart from the atomic one.",
  [H+"regex/state.h", H+"regex/executor.h", H+"containers/list.h", H+"containers/tree.h", C+"hal/memory_base.cpp"],
  [("no hidden shared mutable state besides the state id counter", H+"regex/state.h: StateBase()")],
  [("counter", "global source of unique state ids", H+"regex/state.h")])

p("C22", "Sorting yields an ordered permutation and carries arguments along",
  "For every sequence and every consistent three-way comparison, sorting leaves a permutation of the original elements in non-descending order, touching nothing outside the given range; the argument-sorting form additionally applies the very same permutation to the companion sequence. Partitioning around a pivot moves all smaller elements before all others, keeps the multiset, and returns the boundary between them. Sorting needs only a little stack, also for sequences that are already sorted, reversed or constant.",
  ["inputs"], "all sequences incl. empty, sorted, reversed, all-equal and many duplicates, over pointers and list and tree iterators, arbitrary comparators",
  "Sorting has no unit test at all.",
  [H+"algorithm/sort.h"],
  [("in-place quicksort over forward iterators", H+"algorithm/sort.h")])

p("C23", "A function object calls its own copy of the target, exactly",
  "A function wrapper invoked with given arguments produces exactly the result and effects of the callable it was built from, with arguments forwarded unchanged and state kept between calls. Copies and assignments own independent copies of the callable, moved-from and default-constructed wrappers report being empty, and the captured object lives exactly as long as its wrapper, whatever the sequence of copies, moves, assignments and destructions.",
  ["histories", "inputs"], "all sequences of construct/copy/move/assign/call/destroy with stateful and owning callables",
  "No unit test touches the function wrapper.",
  [H+"templates/function.h"],
  [("heap-owned callable with type-erased call", H+"templates/function.h")])

p("C24", "An optional holds at most one live value, exactly when engaged",
  "After any history of construction, emplacement, assignment, copy, move and reset, an optional reports a value iff one was set and not cleared, and yields exactly that value; move assignment leaves its source empty. The contained object is constructed when the optional becomes engaged and destroyed exactly once when it is replaced, reset or the optional dies; an empty optional constructs and destroys nothing; arguments reach its constructor as they were given, and setting or moving an optional from an rvalue copies nothing.",
  ["histories", "inputs"], "all operation histories over owning value types",
  "templates.optional exercises single transitions with trivial values.",
  [H+"templates/optional.h"],
  [("union storage plus engaged flag", H+"templates/optional.h")])

p("C25", "Vector arithmetic is component-exact and obeys vector algebra",
  "For 2, 3 and 4 component vectors over every element type, each operator (vector-vector and vector-scalar on either side, in-place or not, negation, component access, comparison, dot and cross products, size and normalisation for floating-point components, and conversions between dimensions and types) computes per component exactly what its scalar definition says and modifies only its target; relational operators hold iff they hold for every component. Hence addition commutes, the cross product is orthogonal to its factors, and a normalised non-zero vector has unit length in the same direction.",
  ["inputs"], "all component values (within range), all element types and dimensions, scalars on either side, mixed dimensions",
  "math.vec* check a few constants for some operators.",
  [H+"math/vec2.h", H+"math/vec3.h", H+"math/vec4.h"],
  [("component-wise templates with vectorised specialisations", H+"math/")])

p("C26", "Quaternions represent rotations faithfully",
  "A quaternion built from an angle and an axis rotates every vector by that angle around that axis (right-handed, length preserving); the product of two quaternions rotates like applying the right factor first and then the left one, the inverse undoes the rotation, and the angle and axis read back describe the same rotation. Products and inverses of unit quaternions stay unit length.",
  ["inputs"], "all axes, angles, vectors and chains of products",
  "math.quat checks products about one shared axis only, where factor order and cross-term signs are invisible.",
  [H+"math/quat.h"],
  [("Hamilton product and sandwich rotation", H+"math/quat.h")])

p("C27", "Integer and scalar helpers match their mathematical definition",
  "Minimum and maximum of any number of values, absolute value, integer power with non-negative exponent, floor of the base-2 logarithm of positive integers of every width, and alignment up (strictly greater multiple) and down (greatest multiple not above) return exactly the mathematically defined result for every representable operand.",
  ["inputs"], "all operand values and integer widths, all power-of-two alignments",
  "math.general checks some constants.",
  [H+"generic/generic_platform_math.h"],
  [("bit tricks and builtins", H+"generic/generic_platform_math.h")])

p("C28", "Fixed-size aggregates keep each component intact and addressable",
  "A tuple returns at each index, and for each type, exactly the value it was built with, assigned or modified through that accessor, independent of the other components; a pair keeps key and value and orders by key under its comparison; a fixed-size array returns element i at index i; compile-time names concatenate to exactly the concatenated text with the right length.",
  ["inputs", "programs"], "all component values, positions, types and copies",
  "Few constants are tested; pairs' operators and name concatenation are not tested.",
  [H+"containers/tuple.h", H+"containers/pair.h", H+"templates/array.h", H+"templates/name.h"],
  [("recursive inheritance tuple", H+"containers/tuple.h"), ("compare on key", H+"containers/pair.h")])

p("C29", "A 4x4 matrix keeps its sixteen elements addressable and transposes exactly",
  "A 4x4 matrix built from a scalar, sixteen elements or a buffer returns at every row and column, through every indexing form and the flat buffer, exactly the value put there; writing one element changes no other; transposition moves element (i,j) to (j,i), returns the matrix itself, and applied twice restores it; the comparison mask has exactly the bits of the equal elements and two matrices are equal iff all sixteen elements are; copies are independent.",
  ["inputs"], "all element values, positions and element types",
  "No unit test touches matrices.",
  [H+"math/mat4.h"],
  [("row storage and transposition", H+"math/mat4.h")])

p("C30", "Text forms of arrays and lists show every element in order",
  "The text form of an array is its elements' text forms in order, separated by comma and space and enclosed in brackets; that of a list joins them with arrows between padded brackets; an empty container gives an empty pair of brackets. This holds for elements of every number width, characters, strings, objects with their own text form and nested containers, also when the container is appended to or printed into a string, and producing the text leaves the container unaltered.",
  ["inputs"], "all element types, counts and values, including empty, single-element and nested containers",
  "No unit test checks the text form of a container.",
  [H+"containers/array.h", H+"containers/list.h", H+"containers/string.h"],
  [("array and list toString", H+"containers/array.h"), ("conversion of each element to text", H+"containers/string.h")])

p("C31", "Operations keep the cost their data structure promises",
  "On containers of any size and shape of history: appending to an array or string costs amortised constant element operations and a logarithmic number of allocations; array insertion and removal are linear, an array made with room takes that many elements without another allocation, taking an element out of a container copies none, moving an array, list, tree or map is constant; list pushes and removals are constant, as is asking a container for its size; searches, insertions and removals in trees, maps and sets need a number of comparisons logarithmic in their size whatever the insertion order; set algebra and comparison need at most linear-logarithmic comparisons in the sizes of both operands; sorting a shuffled sequence needs linear-logarithmic comparisons.",
  ["histories", "inputs"], "all sizes, key orders (ascending, descending, zigzag, random) and interleavings of operations",
  "Unit tests use a handful of elements, where every complexity looks alike.",
  [H+"containers/array.h", H+"containers/list.h", H+"containers/tree.h", H+"containers/map.h", H+"containers/set.h", H+"algorithm/sort.h"],
  [("amortised growth of the buffer", H+"containers/array.h"), ("rebalancing after insertion and removal", H+"containers/tree.h"), ("ordered merges", H+"containers/set.h")])

p("C32", "Adding elements never moves those a list, tree or map already holds",
  "The address and value of an element of a list stay the same from its insertion to its own removal, whatever is pushed, inserted or removed around it and when the whole list is moved; those of a tree or map entry stay the same while other entries are inserted or found and when the whole container is moved. So iterators, pointers and references taken earlier still reach the same element and continue in the right order.",
  ["histories"], "all interleavings of insertions, lookups, removals and container moves with references held across them",
  "No unit test holds a reference across a modification.",
  [H+"containers/list.h", H+"containers/tree.h", H+"containers/map.h"],
  [("one node per element", H+"containers/list.h"), ("rotations relink nodes instead of moving data", H+"containers/tree.h")])

p("C33", "The default comparison orders values exactly as their own operators do",
  "The default three-way comparison returns exactly 1, -1 or 0 when the first argument is greater than, smaller than, or neither of the second under the < and > of the language or of their class, for every pair of arithmetic types and values (extreme, mixed-sign and floating-point ones too), for strings and user types, given as variables, constants or temporaries; it neither alters nor copies its arguments, and is antisymmetric and transitive wherever the operators are. Given pointers to constants it compares the pointed-to objects, and sets, maps, trees and sorts of such pointers are ordered accordingly. The null comparison is always 0.",
  ["inputs"], "all pairs of values of all pairs of arithmetic types, strings, and user types with arbitrary operators",
  "Unit tests compare a few small integers of one type.",
  [H+"templates/functional.h", H+"containers/set.h", H+"containers/map.h", H+"algorithm/sort.h"],
  [("three-way comparison of values and of pointers", H+"templates/functional.h")])

p("C34", "Type queries, moves, forwards and swaps agree with the language",
  "For types without qualifiers of their own, the type queries (same type, pointer, pointer-of, reference, volatile, integral, array, function, base-of, trivial construction, copy, assignment and destruction) and the type transformations (removing pointers, references, qualifiers and array extents, adding a pointer, naked and decayed non-array types, choosing and enabling) answer what the language says, and the fixed-width type names have their width and signedness. Moving yields the same object as a temporary, forwarding yields the same object with its value category and constness, and swapping two distinct objects of any type, containers and strings included, exchanges their values exactly with nothing lost, shared or leaked, and without copying where the type can be moved.",
  ["inputs", "configurations"], "all element types and values; all value categories",
  "Unit tests use each of these implicitly with a few types; a wrong answer selects bulk byte copies for types that own memory.",
  [H+"templates/types.h", H+"templates/utility.h", H+"templates/enable_if.h", H+"templates/base.h", H+"generic/generic_platform.h"],
  [("type queries and transformations", H+"templates/types.h"), ("move, forward and swap", H+"templates/utility.h"), ("fixed-width types", H+"generic/generic_platform.h")])

p("C35", "Every build configuration compiles and behaves alike",
  "In each configuration of the project (debug, development, release, or none chosen; optimised or not) every public header compiles on its own, and what it offers can be used with no other included before it, also in several translation units of one program; everything the debug build offers can be used, and the behaviour is the same in all of them: containers, strings, expressions, allocators, wrappers, algorithms and mathematics give the same results (but for what compiling with fast floating-point arithmetic licenses). The check macros evaluate their condition at most once and print exactly when it is false, or are silent in release. Objects of the library may be global: they can be made before main, are intact in main, and can be used and destroyed after it.",
  ["configurations", "inputs", "histories"], "all configurations, optimisation levels, and orders of initialisation of global objects",
  "The unit tests are built in one configuration, where nothing is force-inlined, and without global containers.",
  [H+"unix/unix_platform.h", H+"misc/build.h", H+"misc/assert.h", H+"containers/tree.h", H+"containers/array.h", H+"regex/regex.h", C+"hal/memory_base.cpp"],
  [("configuration macros", H+"unix/unix_platform.h"), ("check macros", H+"misc/assert.h"), ("lifetime of the global allocator", C+"hal/memory_base.cpp")])

p("C36", "No result depends on memory that was never written",
  "Whatever the history of operations on containers, strings, expressions, allocators, atomics, wrappers, vectors and sorts, no decision, address, result or text depends on a byte that neither the library nor its user has written, memory from allocators being arbitrary.",
  ["histories", "inputs"], "all histories and all initial contents of memory",
  "Fresh memory is mostly zero in a short test, which hides a forgotten initialisation.",
  [H+"containers/array.h", H+"containers/list.h", H+"containers/tree.h", H+"containers/string.h", H+"templates/optional.h", H+"templates/function.h", H+"hal/malloc_pool.h", H+"hal/malloc_binned.h", H+"regex/automaton.h", H+"regex/executor.h", H+"math/quat.h"],
  [("constructors of containers", H+"containers/array.h"), ("nodes", H+"containers/tree.h"), ("pool blocks", H+"hal/malloc_pool.h"), ("automaton states", H+"regex/automaton.h")])

p("C37", "SIMD vectors load, compute and store each component in its place",
  "The SIMD vector of four floats loads the four values it is given, from components, from aligned or unaligned memory, or one value four times, in memory order; addition, subtraction, multiplication and division yield per component exactly the result of the scalar operation, special values included, and leave their operands alone; a store writes exactly the four components, a masked store exactly those its mask selects, and neither touches or reads any other byte.",
  ["inputs"], "all component values, masks and addresses",
  "No unit test uses the SIMD vector.",
  [H+"math/simd_float.h", H+"math/simd.h"],
  [("load, arithmetic and store", H+"math/simd_float.h")])

p("C38", "The debugger shows what each value contains",
  "Loaded into gdb, on its own or with the program, the pretty printers show the content of any array, list, set, map, string, optional, tuple, atomic, vector and quaternion at any moment of its history: every item once, in its order, with the number of items (an array's capacity too), keys beside their values, every character of a string, the value an optional holds and none when it is empty, the angle and axis a quaternion rotates by. Items that are such values themselves are shown likewise, as are constants and values behind references, for any value and never as an error.",
  ["inputs", "histories"], "all values of the supported types, nested to any depth",
  "No test runs a debugger.",
  ["extras/gdb/types.py", H+"containers/array.h", H+"containers/list.h", H+"containers/tree.h", H+"containers/tuple.h", H+"templates/optional.h"],
  [("printers", "extras/gdb/types.py"), ("the state they read", H+"containers/tree.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
