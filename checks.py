"""What each check runs: harness builds, suites, case counts."""

class Bin:
    def __init__(self, src, san="asan", defs=(), libs=("hal",), flags=(), extra=()):
        self.src, self.san, self.defs, self.libs, self.flags, self.extra = src, san, tuple(defs), tuple(libs), tuple(flags), tuple(extra)
    def key(self): return (self.src, self.san, self.defs, self.libs, self.flags, self.extra)

CHECKS = {}

def check(pid, rule, jobs, **kw):
    CHECKS[pid] = dict(rule=rule, jobs=jobs, probes=kw.pop("probes", []), **kw)

def job(src, suite, quick, thorough=None, **kw):
    b = {k: kw.pop(k) for k in ("san", "defs", "libs", "flags", "extra") if k in kw}
    j = dict(suite=suite, bin=Bin(src, **b), quick=quick, **kw)
    if thorough is not None: j["thorough"] = thorough
    return j

check("C01",
    "A case is one seeded history of 8 to 68 operations (construction, insertion, removal, write, copy, move, assignment) on three arrays of one element type, mirrored on a reference sequence and compared in full after each operation; it is non-trivial when an array grew past 8 elements (so several capacity growths), distinct by the hash of its operation trace.",
    [job("c01.cpp", "values", 16000, defs=["-DKV_PART=1"]), job("c01.cpp", "owning", 12000, defs=["-DKV_PART=2"]), job("moveonly.cpp", "array", 6000), job("vast.cpp", "vast-array", 16, 400, san="plain", cpu=60)],
    require=["op:insertAt-multi", "op:insert-own", "op:call-grow", "op:move-assign", "op:removeAt", "op:buffer-construct", "elements:huge", "op:insertLast-many", "op:insertFirst-many", "op:insertAt-many", "move-only:array-grown"])

check("C13",
    "A case is one pool configuration (1..700 blocks, any size, alignment 1..256, own or supplied buffer) driven through phases of requests and releases in LIFO, FIFO and random order; every live block is filled with a pattern and watched. Non-trivial when the pool was exhausted at least once, distinct by operation-trace hash plus configuration.",
    [job("pools.cpp", "memory_pool", 24000), job("pools.cpp", "malloc_pool", 24000), job("pools.cpp", "flooded", 80), job("vast.cpp", "vast-pools", 16, 400, san="plain", cpu=60)],
    require=["exhausted", "release-when-exhausted", "realloc-too-large", "realloc-too-aligned", "too-aligned", "flood:memory-pool", "flood:malloc-pool"])

check("C14",
    "A case is one growing-pool configuration (blocks per pool, block size, alignment 1..256, 0..4 initial pools) driven through phases of requests and releases; live blocks are patterned and watched, pool creation is compared with the number of blocks in use. Non-trivial when it grew and later served requests below its peak.",
    [job("pools.cpp", "pooled", 16000), job("pools.cpp", "flooded", 80), job("vast.cpp", "vast-pooled", 16, 400, san="plain", cpu=60)],
    require=["pooled:grow", "pooled:reuse", "pooled:free", "pooled:too-large", "flood:many-pools", "flood:large-pools"])

check("C15",
    "A case is one bucket configuration (any minimum, maximum, increment, pool size, alignment) driven through requests at and around every bucket edge, releases, reallocations across buckets and fill/drain cycles under a live-heap monitor. Non-trivial with more than 20 requests served.",
    [job("pools.cpp", "binned", 8000), job("pools.cpp", "flooded", 80), job("vast.cpp", "vast-binned", 48, 800, san="plain", cpu=60)],
    require=["binned:alloc", "binned:too-large", "binned:realloc-grow", "binned:realloc-shrink", "binned:realloc-too-aligned", "binned:realloc-too-large", "binned:large-units", "binned:cycle", "flood:binned"])

check("C16",
    "A case is a history of allocations, reallocations (also null, to zero, unservable) and releases over sizes up to 512 KiB and alignments up to 64 KiB with patterned live blocks, or a history of typed-handle calls over two monitored allocators. Non-trivial with several blocks live at once.",
    [job("c16.cpp", "ansi", 8000), job("c16.cpp", "objects", 8000), job("c16.cpp", "ansi", 8000, san="plain")],
    require=["realloc-zero", "realloc-grow", "realloc-shrink", "realloc-null", "free-null", "object-alloc", "object-realloc", "object-managed"])

check("C17",
    "A case is one primitive applied to a run of 0..600 elements of one of eight element kinds inside a guarded buffer, with constructions, assignments and destructions counted per element; moves take every overlap in both directions. Non-trivial when the run has at least two elements.",
    [job("c17.cpp", "elements", 60000), job("c17.cpp", "bytes", 60000), job("vast.cpp", "vast-primitives", 7, 56, san="plain", cpu=120)],
    require=["constructDefault", "constructCopy", "copy", "move-down", "move-up", "destroy", "run:huge", "bytes:huge", "memcpy", "memmov", "memcmp", "move-same:frail", "assign:keeps"])

check("C04",
    "A case is a history of edits (construction from every source, appends incl. self-append, numbers, formatting of up to several thousand characters, substrings, splices, case conversion, copies, moves) on several strings mirrored on reference strings and compared byte for byte with length and terminator. Non-trivial when content, length or storage changed often enough; distinct by operation trace.",
    [job("strings.cpp", "edit", 16000)],
    require=["append-self", "append-own-tail", "append-number", "print-number-shorter", "format-long", "splice-longer", "splice-self", "substr", "lower", "move", "length:huge", "vast:own-tail", "vast:own-char", "vast:splice", "vast:splice-own", "vast:slice", "vast:twice"])

check("C05",
    "A case is one set of texts, patterns and replacements over small alphabets (so occurrences overlap and nest), searched from every start position, replaced, and compared (whole, sub-range, case-insensitive, all operators) against reference definitions. Distinct by operation trace.",
    [job("strings.cpp", "search", 16000), job("strings.cpp", "compare", 16000)],
    require=["found", "not-found", "start-beyond", "pattern-longer", "empty-pattern", "empty-text", "many-occurrences", "replace", "replace-by-self", "text:long", "cmp-equal", "cmp-different", "icmp-equal", "cmpn", "compare:long", "compare:huge"])

check("C06",
    "A case is one seeded history of 8 to 68 operations on three lists of one element type, mirrored on a reference sequence; after each operation every link of the touched list is walked in both directions. Non-trivial when a list exceeds 4 elements; distinct by operation trace.",
    [job("list.cpp", "values", 16000), job("list.cpp", "owning", 16000), job("moveonly.cpp", "list", 4000)],
    require=["op:pushBack-multi", "op:pushFront-multi", "remove:only", "remove:head", "remove:tail", "remove:inner", "copy-assign:shrink", "copy-assign:grow", "op:move-assign", "op:push-own", "elements:huge", "op:pushBack-many", "op:pushFront-many"])

check("C07",
    "A case is one seeded history of insertions, unique insertions, replacements, removals (by iterator, value or node), copies and moves over three trees with keys drawn in ascending, descending, alternating, scattered or random order from small or large key ranges, under plain, descending and heterogenous comparisons of any result magnitude; elements carry an identity the order ignores. Non-trivial when a tree exceeds 6 elements; distinct by operation trace.",
    [job("tree.cpp", "multiset", 12000), job("tree.cpp", "plain", 12000), job("tree.cpp", "nodes", 8000)],
    require=["node:duplicate", "node:inserted", "node:evicted-other", "nodes:huge", "unique:present", "unique:absent", "replace:present", "op:remove-iterator", "op:remove-value", "range-duplicates", "lookup-miss", "bulk", "op:insert-many", "op:insertUnique-many", "op:replace-many"])

check("C08",
    "A case is one seeded history over three trees, or growth to thousands of nodes and removal in adversarial order, with the whole node structure (colours, black heights, parent links, in-order threads, order, depth bound) walked after each operation. Non-trivial when a tree exceeds 6 nodes; distinct by operation trace, states are distinct shapes.",
    [job("tree.cpp", "structure", 16000), job("tree.cpp", "nodes", 8000)],
    require=["node:inserted", "node:evicted-other", "op:insert", "op:insertUnique", "op:remove-iterator", "op:remove-value", "op:copy-assign", "op:copy-construct", "op:move-assign", "bulk", "nodes:huge"])

check("C09",
    "A case is one seeded history of indexing, insertion, lookup, removal, popping, iterator writes, copies and moves over two maps with keys drawn in adversarial or random order, under ascending and descending comparisons and plain, text and owning key and value types, mirrored on a reference dictionary and compared in full after each operation. Non-trivial when a map exceeds 6 pairs; distinct by operation trace.",
    [job("map.cpp", "dict", 12000)],
    require=["index:present", "index:absent", "insert:present", "op:remove-iterator", "op:pop", "op:held-reference", "lookup-hit", "lookup-miss", "entries:large"])

check("C10",
    "A case is one seeded history of additions, removals, membership queries, and in-place or value-returning union, intersection and difference over three sets (also with empty or identical operands), mirrored on reference sets. Non-trivial when a set exceeds 4 items; distinct by operation trace.",
    [job("set.cpp", "algebra", 16000)],
    require=["union", "intersection", "difference", "union-value", "intersection-value", "difference-value", "self-operand", "empty-operand", "member", "not-member", "items:large", "op:set-many"])

check("C11",
    "A case is four related sets (equal, nested, prefix, disjoint, empty, incomparable), compared pairwise in both directions with all six operators against the mathematical definition. Non-trivial with two different non-empty sets; distinct by contents.",
    [job("set.cpp", "compare", 60000)],
    require=["pair:equal", "pair:contained", "pair:contains", "pair:incomparable", "pair:same-object", "pair:empty", "pair:large"])

check("C02",
    "A case is one seeded history over several containers (array, list, tree, map, set) of instrumented elements of various sizes and alignments, including copies, moves, self assignment and growth. Every element registers its construction, use and destruction by address; after each operation the registered live elements must be exactly the contained ones, and none and no storage may remain at the end. Non-trivial when enough elements were held; distinct by operation trace.",
    [job("c02.cpp", "lifetimes", 24000), job("moveonly.cpp", "array", 3000), job("moveonly.cpp", "list", 3000), job("moveonly.cpp", "ordered", 4000)],
    require=["copy-assign", "self-assign", "move-assign", "copy-construct", "move-construct", "construct", "move-only:array", "move-only:list", "move-only:ordered"])

check("C03",
    "A case is one seeded history over four containers (array, list, tree or map of plain, owning, over-aligned or text elements) drawing from recording allocators (the global one, two external ones and a library pool, binned or system allocator), with copies and moves between them; or containers that manage a recording or library allocator themselves. After each operation all element storage must lie in live blocks, requested with sufficient size and alignment, of the one right allocator; freeing to the wrong allocator, twice, or after its destruction, and any block left at the end is a violation. Non-trivial when enough elements were held; distinct by operation trace.",
    [job("c03.cpp", "external", 16000), job("c03.cpp", "managed", 16000)],
    require=["copy-assign", "move-assign", "move-between-allocators", "pooled-allocator", "binned-allocator", "elements:over-aligned", "managed-storage", "pool-managed"])

check("C12",
    "A case is a pair or group of containers or strings of one type; after copying, moving or assigning in every combination of sizes incl. self assignment, both sides are driven by further random operations in lockstep with independently built replicas and compared in full; element addresses of the two must stay disjoint. Non-trivial when a copied value is not empty; distinct by operation trace.",
    [job("c12.cpp", "copies", 16000), job("c12.cpp", "owned", 6000)],
    require=["self-copy-assign", "copy-assign-shrink", "copy-assign-empty", "copy-assign-grow", "copy-assign-to-empty", "copy-assign-equal", "move-assign", "self-move-assign", "differential", "reused", "owned:move", "owned:move-deep", "owned:copy", "owned:whole", "owned:move-out"])

check("C22",
    "A case is one sequence (sorted, reversed, equal, nearly sorted, duplicates, organ pipe, random, up to 500 elements of plain, identity-carrying, text or owning types) with one of several consistent orders, sorted, argument-sorted or partitioned over pointers, list and tree iterators and a range-checking forward iterator, between guard elements. Result compared as permutation, order, companion permutation, boundary and untouched surroundings. Non-trivial above 2 elements; distinct by operation trace.",
    [job("c22.cpp", "huge", 160), job("c22.cpp", "deep", 48), job("c22.cpp", "deep", 32, san="plainO0"), job("c22.cpp", "sorting", 24000), job("c22.cpp", "natural", 8000)],
    require=["sort:pointer", "sort:checked-iterator", "sort:list", "sort:tree", "argsort:pointers", "argsort:mixed", "partition:value", "partition:list", "partition:split", "shape:sorted", "shape:equal", "order:weak", "natural", "huge"])

check("C23",
    "A case is one seeded history of construction, assignment, copy, move, swap and call over four function wrappers holding stateful, owning, over-aligned, large, text and pointer targets, mirrored on the state each wrapper must own; captured objects are lifetime-tracked. A second suite checks value category, identity and copy counts of arguments and results. Non-trivial with two or more engaged wrappers; distinct by operation trace.",
    [job("c23.cpp", "history", 24000), job("c23.cpp", "forwarding", 8000)],
    require=["copy:both", "copy:clear", "copy:engage", "move:both", "move:clear", "move:engage", "self-copy-assign", "self-move-assign", "op:copy-construct", "op:move-construct", "op:swap", "call:stateful", "kind:pointer", "kind:functor", "kind:aligned", "moved-target", "stealing-target", "arity:many", "arity:none"])

check("C24",
    "A case is one seeded history of construction, emplacement, assignment, copy, move, reset and write-through over four optionals of plain, text and lifetime-tracked values (also as array elements), mirrored on engaged flag and value; the number of live values must always equal the number of engaged optionals. Non-trivial with two engaged optionals; distinct by operation trace.",
    [job("c24.cpp", "history", 24000), job("c24.cpp", "nested", 8000), job("c24.cpp", "arguments", 8000)],
    require=["move-assign:source-emptied", "emplace-over", "assign:both", "assign:clear", "assign:engage", "move:both", "move:clear", "move:engage", "op:copy-construct", "op:move-construct", "reset:engaged", "reset:empty", "op:write-through", "nested", "op:move-own", "built:over", "built:empty"])

check("C28",
    "A case is one history of writes, copies, moves and assignments over tuples (eight items of seven types incl. tracked, text and over-aligned ones, and small ones), or pairs under several comparisons checked against the order of their keys, or static arrays of various sizes and element types, or names and all their concatenations of one to five parts from a family of texts; every component is read back by every accessor after each step. Distinct by operation trace.",
    [job("c28.cpp", "tuples", 8000), job("c28.cpp", "pairs", 8000), job("c28.cpp", "arrays", 8000), job("c28.cpp", "names", 8000)],
    require=["tuple:copy", "tuple:assign", "tuple:move", "tuple:small", "tuple:lvalues", "tuple:rvalues", "pair:equal-keys", "pair:different-keys", "pair:copy", "pair:assign", "static-array", "items", "name:joined", "name:long", "tuple:wide"])

check("C25",
    "A case is one set of vectors of 2, 3 or 4 components of one of several integer and floating types; every operator (vector and scalar on either side, in place or not, across dimensions) is evaluated and each component compared with the scalar operator applied to the components, and the operands checked unchanged; a second suite checks size and normalisation against extended-precision references, NaN and zero included. Distinct by operation trace.",
    [job("vec.cpp", "vectors", 16000, libs=("hal", "math")), job("vec.cpp", "normals", 16000, libs=("hal", "math"))],
    require=["arithmetic", "compare:equal", "compare:less", "compare:mixed", "conversion", "mixed-dimensions", "normalise", "nan"])

check("C26",
    "A case is a set of rotations by random, tiny, quarter, half or zero angles about random or coordinate axes in single or double precision, applied to vectors, multiplied in chains in both orders and with conjugates and inverses, read back as angle and axis; every result is compared with the rotation matrix computed in extended precision by Rodrigues' formula. Distinct by operation trace.",
    [job("quat.cpp", "rotations", 24000, libs=("hal", "math"))],
    require=["axis:coordinate", "angle:zero", "angle:small", "angle:quarter", "product:right", "product:left", "product:conjugated", "product:inverse", "axis-read-back", "chain"])

check("C27",
    "Suite exhaustive: all values of the 8 and 16 bit integer types with all alignments, near neighbours and small exponents, split in slices; suite wide: edge and random values of all eight integer types; suite reals: floating-point operands. Oracle: 128-bit integer arithmetic from the definitions. Distinct by operands.",
    [job("scalar.cpp", "wide", 40000, libs=("hal", "math")), job("scalar.cpp", "exhaustive", 512, 512, libs=("hal", "math")), job("scalar.cpp", "reals", 40000, libs=("hal", "math"))],
    require=["lists", "pow:representable", "exhaustive-slice", "reals"])

check("C29",
    "A case is one matrix of integer or floating elements built, indexed in every form, written, copied, compared and transposed, mirrored on a flat reference of sixteen values. Distinct by operation trace.",
    [job("vec.cpp", "matrices", 40000, libs=("hal", "math"))],
    require=["matrix:equal", "matrix:all-different", "matrix:partly-different", "transpose"])

check("C18",
    "Suite language: random well-formed patterns (grammar-generated, up to deep nesting) against members, near-members and random inputs, judged by an independent set-based matcher over the pattern's syntax tree, by fresh, reset and rebound executors; large: repetition counts of two and three digits, up to thousands of states, inputs up to 500 characters; exhaustive: all inputs up to a bound over a small alphabet; realistic: hand-written practical patterns; builder: automata assembled through the builder incl. look-aheads. Non-trivial when inputs of both kinds were tried; distinct by pattern and inputs.",
    [job("regex.cpp", "lengthy", 160, libs=("hal", "regex"), cpu=90), job("regex.cpp", "language", 6000, libs=("hal", "regex")), job("regex.cpp", "large", 2400, libs=("hal", "regex"), cpu=90), job("regex.cpp", "exhaustive", 2400, libs=("hal", "regex")), job("regex.cpp", "realistic", 1600, libs=("hal", "regex")), job("regex.cpp", "builder", 6000, libs=("hal", "regex")), job("regex.cpp", "wide", 2400, libs=("hal", "regex"))],
    require=["quantifier:stacked", "quantifier:nothing", "literal-brace", "input:beyond-64K", "quantifier:many", "input:accepted", "input:rejected", "optimized", "not-optimized", "executor:reset", "executor:reset-midway", "executor:rebind", "free-function"])

check("C19",
    "A case is an arbitrary pattern (random bytes, tokens of the syntax in any order, mutated and well-formed patterns; in suite stress, large and pathologically ambiguous ones) compiled, printed, matched against several inputs held in exactly-sized heap blocks, and destroyed, under address, undefined-behaviour and leak checking and a CPU-time hang monitor. Distinct by pattern and inputs.",
    [job("regex.cpp", "safety", 16000, libs=("hal", "regex")), job("regex.cpp", "stress", 1200, libs=("hal", "regex"))],
    require=["pattern:bytes", "pattern:mutated", "pattern:tokens", "pattern:well-formed", "printed", "stress:ambiguous", "stress:branches", "stress:counted", "stress:long-input", "stress:nested", "stress:nested-class", "stress:nested-star", "stress:optional"])

_atomic = [("single", 3000), ("counting", 900), ("conservation", 500), ("tearing", 500), ("publication", 800), ("ownership", 800), ("storebuffer", 500), ("independentreads", 400), ("ticketlock", 400), ("exchange", 400), ("linear", 500)]
check("C20",
    "A case is one concurrent workload (2-7 threads released together, random delays) over atomics of all integer widths and pointer types, judged from the recorded results: tickets drawn must be distinct, gapless and ordered per thread; sums conserved; loads never torn; data published before a store visible after the load; last-owner unique; store-buffering and independent-reads litmus shapes; ticket-lock exclusion; a Wing-Gong search for a linearisation of stamped histories. Everything runs under the race detector and again natively at -O2 for the hardware's own reorderings; one suite checks every operation sequentially against plain values. Non-trivial when operations of different threads interleaved; distinct by observed outcome.",
    [job("atomic.cpp", s, n, san="tsan", libs=()) for s, n in _atomic] + [job("atomic.cpp", s, n * 4, san="plain", libs=()) for s, n in _atomic],
    require=["seq:++x", "seq:x++", "seq:--x", "seq:x--", "seq:+=", "seq:-=", "seq:assign", "seq:store", "seq:load", "tickets:up", "tickets:down", "interleaved", "conserved", "observed-changes", "publish:store", "publish:assign", "publish:increment", "publish:pointer", "last-owner", "sb:store", "sb:assign", "sb:increment", "sb:add", "critical-sections", "exchanged-between", "concurrent-history"])

check("C21",
    "A case is 2-6 threads released together, each running a seeded workload over its own arrays, lists, trees, maps, sets, strings, expressions, pools, function wrappers and math objects (suite independent), or reading one shared set of constant objects (suite readers), with random yields; the race detector watches every access and each thread's digest of everything it observed must equal the digest of the same workload run alone afterwards. Non-trivial when threads overlapped; distinct by workload.",
    [job("threads.cpp", "independent", 700, san="tsan", libs=("hal", "regex", "math")), job("threads.cpp", "readers", 1600, san="tsan", libs=("hal", "regex", "math")), job("threads.cpp", "independent", 1600, libs=("hal", "regex", "math")), job("threads.cpp", "readers", 2400, libs=("hal", "regex", "math"))],
    require=["overlapping", "overlapping-readers", "array", "list", "tree", "map", "set", "string", "regex", "pools", "sort", "function", "math"])

check("C30",
    "A case is one array or list of 0-300 elements (integers of both widths and signs, floating-point numbers, characters, strings, objects with a text form of their own, nested arrays and lists) whose text form, alone, appended to a string, printed into a string and nested in another array, is compared with one assembled from the elements' own texts. Non-trivial with at least two elements; distinct by text.",
    [job("c30.cpp", "text", 24000)],
    require=["text:list", "text:array", "text:empty", "text:single", "text:nested"])

check("C31",
    "A case is one container or sequence of 100 to 20000 elements (now and then several hundred thousand) built in ascending, descending, zigzag, scattered or random key order, whose comparisons (counting comparator), element constructions and assignments (tracked elements) and allocations (counting allocator) are measured per operation and held against the promised bound with a constant factor of slack. Distinct by trace.",
    [job("c30.cpp", "cost", 4000)],
    require=["cost:array", "cost:list", "cost:tree", "cost:map", "cost:set", "cost:sort", "cost:string", "cost:equal", "cost:huge", "cost:size", "measured", "cost:removals", "cost:room", "cost:takes"])

check("C32",
    "A case is one list, tree or map modified at random while the address and value of every element present are kept on the side; after every modification each must still be at its address with its value, be the one reached by an iterator taken before, and follow its neighbours in order. Elements are tracked, so a relocated or destroyed one is seen as such. Distinct by operation trace.",
    [job("c30.cpp", "stable", 12000)],
    require=["stable:list", "stable:tree", "stable:map", "stable:moved", "stable:moved-equal"])

check("C33",
    "A case compares random and boundary values of each of the 144 ordered pairs of twelve arithmetic types, in eight forms (variables, constants, temporaries, pointers to constants), with what the language's own operators say; then strings, objects with unusual, heterogeneous or constant operators (that count copies), pointers to constants, sets, maps, trees and sorts of such pointers and of extreme numbers against standard containers, and antisymmetry and transitivity on triples. Distinct by seed; states = pair of types and result.",
    [job("types.cpp", "compare", 12000)],
    require=["compare:equal", "compare:different", "compare:unordered", "compare:object", "compare:string", "compare:pointer"])

check("C34",
    "The query suite evaluates every type query and transformation on 32 types (arithmetic, enumeration, union, classes with each special member, function and member pointers, containers) and twelve types derived from each (pointers, references, arrays) and compares with the standard library's answers. A value case swaps random elements of nine kinds (tracked, owning, over-aligned, relocatable or not), arrays, lists, maps, sets and strings, and checks move and forward by the overloads they select. Distinct by trace.",
    [job("types.cpp", "queries", 8), job("types.cpp", "values", 8000)],
    require=["query:type", "swap", "move"])

def everywhere(san, factor, skip=(), only=None, cpu=None, strict=None, least=8):
    """Every suite of the checks above, built as SAN, with a fraction of the quick cases."""
    jobs, seen = [], set()
    for c in list(CHECKS.values()):
        for j in c["jobs"]:
            b = j["bin"]; stem = b.src[:-4]; k = (b.src, b.defs, j["suite"])
            if k in seen or stem in skip or (stem, j["suite"]) in skip or (only and stem not in only): continue
            seen.add(k); f = factor.get((stem, j["suite"]), factor.get(stem, factor[None])) if isinstance(factor, dict) else factor
            n = max(least, int(j["quick"] * f)) if j["quick"] >= least else j["quick"]
            jobs.append(dict(suite=j["suite"], name=stem + "-" + j["suite"] + "".join(d.replace("-DKV_PART=", "-") for d in b.defs), quick=n, thorough=n * 20, shards=2, cpu=cpu or j.get("cpu", 30),
                             bin=Bin(b.src, san=(strict if strict and stem in ("vec", "quat", "scalar", "types") else san), defs=b.defs, libs=b.libs, flags=b.flags, extra=b.extra)))
    return jobs

# Headers a program may include on its own
HEADERS = 'algorithm/sort.h containers/array.h containers/containers_types.h containers/list.h containers/map.h containers/pair.h containers/set.h containers/string.h containers/tree.h containers/tuple.h core_types.h generic/generic_platform.h generic/generic_platform_atomics.h generic/generic_platform_math.h generic/generic_platform_memory.h generic/generic_platform_strings.h hal/malloc_ansi.h hal/malloc_binned.h hal/malloc_object.h hal/malloc_pool.h hal/memory_base.h hal/platform.h hal/platform_atomics.h hal/platform_crt.h hal/platform_math.h hal/platform_memory.h hal/platform_strings.h linux/linux_platform.h linux/linux_platform_atomics.h linux/linux_platform_math.h linux/linux_platform_memory.h linux/linux_platform_strings.h math/mat4.h math/math.h math/math_types.h math/quat.h math/simd.h math/simd_float.h math/vec2.h math/vec3.h math/vec4.h misc/assert.h misc/build.h misc/utility.h regex/automaton.h regex/executor.h regex/regex.h regex/regex_types.h regex/state.h templates/array.h templates/atomic.h templates/base.h templates/enable_if.h templates/function.h templates/functional.h templates/iterator.h templates/name.h templates/optional.h templates/type_info.h templates/types.h templates/utility.h unix/unix_platform.h unix/unix_platform_atomics.h unix/unix_platform_math.h unix/unix_platform_memory.h unix/unix_platform_strings.h'.split()

# Walks over more than 4 GB
SLOW = [("vast", "vast-primitives")]

check("C35",
    "A case is a case of one of the suites of C01 to C34 run in another build configuration (release with -Ofast, or -O3 where the oracle needs IEEE arithmetic; development with -O2; none with -O0; release under the sanitizers), one round of the check macros with their output captured, or one round of work of three translation units with global containers made before main and used after it; every public header is also compiled and linked on its own. Non-trivial and distinct as defined by the suite.",
    [job("config.cpp", s, 400, san=k, libs=("hal", "regex", "math"), extra=("unit_a.cpp", "unit_b.cpp") + (("each-header",) if k in ("plainO0", "release") else ())) for s in ("macros", "units") for k in ("plainO0", "bare", "dev", "release", "release-asan", "asan")]
    + everywhere("release", 0.3, strict="release-ieee", skip=SLOW) + everywhere("dev", 0.1, skip=SLOW) + everywhere("bare", 0.02, skip=SLOW + [("vast", "vast-array")]) + everywhere("release-asan", 0.03, skip=["vast"]),
    require=["units", "check:failed", "check:silent"])

check("C36",
    "A case is a case of one of the suites of C01 to C34 run under valgrind memcheck, which tracks the definedness of every bit and reports each branch, address or system call that depends on an undefined one; the oracles of the suites compare every value the library returns, so those are used too. Non-trivial and distinct as defined by the suite.",
    everywhere("memcheck", {None: 0.025, "c01": 0.015, "c17": 0.01, "scalar": 0.005, ("set", "algebra"): 0.004, ("set", "compare"): 0.01, "vec": 0.01, ("pools", "flooded"): 0.02, "atomic": 0.05, ("c22", "huge"): 0.01, ("c22", "deep"): 0.01, ("regex", "lengthy"): 0.01, ("regex", "large"): 0.005, ("regex", "stress"): 0.01, ("regex", "safety"): 0.01, ("c30", "cost"): 0.004}, cpu=600, least=4, skip=["vast"]),
    require=["memcheck:watched"])

check("C37",
    "A case is two vectors of random and special components loaded in every form from every offset, combined and stored with every mask into watched memory or blocks of exactly their size, each component compared bit by bit (any NaN equals any NaN) with the scalar operation. Distinct by components.",
    [job("simd.cpp", "vectors", 40000), job("simd.cpp", "vectors", 40000, san="release-ieee"), job("simd.cpp", "vectors", 400, san="memcheck", cpu=300)],
    require=["load:unaligned", "load:aligned", "load:components", "load:scalar", "arithmetic", "store:unaligned", "store:masked", "store:full", "store:none"])

NOT_APPLICABLE = {}

check("C38",
    "A case is one program stopped 24 times under gdb with fresh random values in 45 variables (containers after insertions and removals, nested, empty, constant, behind references; texts of any bytes; rotations of any angle), each read through the printers of the repository, loaded by hand or with the program, and compared with the reference the same seed gives; optionals and atomics are compared with how their value is shown. Every case is non-trivial, distinct by what was shown.",
    [job("gdbview.cpp", "view", 160, 2400, san="plainO0", flags=["-g"], cpu=100)],
    require=["shown:value", "shown:as-its-value", "shown:rotation", "array:emptied", "list:removed", "set:removed", "map:removed", "optional:reset", "text:any-byte", "text:utf8", "text:long", "quat:past-one", "quat:identity"])
