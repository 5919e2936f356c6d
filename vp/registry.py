"""Which units, replay harnesses and assumptions decide each property."""

TRUSTED = [
    "clang 18 front end and the LLVM 18 passes used for extraction (mem2reg/SROA, inlining, simplifycfg, instcombine, early-cse, adce): the verified text is the IR they produce from /repo's headers",
    "tools/irx/irx.cpp (IR to JSON) and vp/engine.py, vp/execu.py, vp/ground.py (VC generation) of /verif",
    "z3 4.x/5.x (z3py) and cvc5",
]
FLOAT = "floating-point arithmetic is treated as exact real arithmetic; NaN and signed zero are excluded; infinities are modelled as +-2^200"
SIZES = "container lengths are below 2^40 elements"
NOTERM = "termination is not proved (partial correctness); the replay harness bounds each case by 60 s"
VEC = "std::vector is modelled by its begin/end/end-of-storage pointers, distinct containers do not alias"

PROPS = {
    "C01": dict(
        modules=["search_buffer"], native=["c01.cpp"],
        note="Every obligation of the buffer operations' contracts is discharged for all inputs on the IR of the current headers; std::sort is trusted, distances are treated as reals.",
        assumptions=[FLOAT, SIZES, NOTERM, VEC, "the buffer has a capacity of at least one and a window between 1 and the capacity", "duplicate suppression compares ids among candidates of equal distance"],
        trusted=["std::sort (libstdc++): sorted permutation of its range"],
    ),
    "C02": dict(
        modules=["mutable_buffer", "search_buffer"], native=["c02.cpp"],
        note="Every operation of MutableBuffer is proved to keep the class invariant (valid count, region of interest, last candidate of a full buffer, order) for all buffers, targets and capacities; the counting function is part of the specification.",
        assumptions=[FLOAT, NOTERM, VEC, "fewer than 65535 stored candidates (the counters have 16 bits) and a target between one and the capacity", "sort() is called before the search starts (frontier at zero), insert() on a sorted buffer", "duplicate suppression compares ids among candidates of equal distance"],
        trusted=["std::sort (libstdc++): sorted permutation, which keeps the number of valid candidates", "std::vector insert/push_back/resize: shift, append, shrink"],
    ),
    "C03": dict(
        modules=["search_buffer"], native=["c03.cpp"],
        note="Every obligation of the filter's contracts is discharged for all ids and all filter states on the IR of the current headers.",
        assumptions=[SIZES, NOTERM, VEC, "ids below 2^32 - 2^16 (16-bit filter) or 2^32 - 1 (smaller filters): the remaining ids collide with the empty marker"],
    ),
    "C09": dict(
        modules=["threads"], native=["c09.cpp"],
        note="The share of every thread and the chunk of every ticket are proved for all sizes, thread counts and grain sizes.",
        assumptions=["index spaces are smaller than 2^62, thread counts below 2^31, the grain size is at least one", "atomic fetch_add hands every ticket value to exactly one thread; tickets times the grain size stay below 2^63", NOTERM, "the thread pool runs the thunk once per thread id (see C21: not claimed)"],
        trusted=["hardware atomicity of std::atomic<uint64_t>::fetch_add"],
    ),
    "C16": dict(
        modules=["misc"], native=["c16.cpp"],
        note="Proved for every value of the 16 integer type pairs the library instantiates most, and for every (lo, hi) of every mask width; source-level undefined shifts and signed overflows are obligations (clang's checks are inserted before optimisation).",
        assumptions=["floating-point conversions are not covered", "the masks are proved case by case over the complete enumeration of lo and hi"],
    ),
    "C08": dict(
        modules=[("distance", ["v4", "v3"])], native=[("c08.cpp", ["v4", "v3"])],
        note="For every length, element-type pair and both instruction sets the kernel's result is proved equal to the sum over all components; integer lanes are proved not to wrap; floats are exact reals.",
        assumptions=[FLOAT, "a fused multiply-add is a multiplication followed by an addition", "8-bit integer vectors have at most 32768 components (the integer kernels accumulate in 32 bits)", "vectors have fewer than 2^40 components", "static extents are proved for 5, 37, 100 and 128 components"],
        trusted=["Intel intrinsics' LLVM semantics: vpdpwssd, masked loads, ldu.dq, reduce.add", "sqrtf is a function; operands do not alias the result"],
    ),
    "C06": dict(
        modules=["graph"], native=["c06.cpp"],
        note="SimpleGraphBase is verified over an abstract dataset whose rows are given by contract; every obligation is discharged for all degrees, lists and vertex ids. Other index types and the blocked graph are replayed natively (bounded).",
        assumptions=["graphs have fewer than 2^32 vertices and maximum degree below 2^32 - 1 (32-bit vertex ids); replacement lists have fewer than 2^32 entries", "the dataset returns the storage of row i for row i (proved for the two storages in C10)", "no concurrent modification of one adjacency list", NOTERM],
        trusted=["std::copy and std::find are verified as compiled; prefetch instructions have no effect"],
    ),
    "C10": dict(
        modules=["graph"], native=["c10.cpp"],
        note="Row addressing, disjointness, set_datum, block resolution and block growth are proved for all sizes; element conversion between types, copy, compaction helpers and error paths are replayed natively (bounded).",
        assumptions=["fewer than 2^31 vectors of fewer than 2^20 components", "add_block/drop_block append and remove exactly one block (std::vector of blocks is modelled by its length)", "allocation of a block of n*d elements returns n*d elements", "block sizes are enumerated for BlockedData (2^0 to 2^40 for addressing)", NOTERM],
        trusted=["std::vector growth of the block list"],
    ),
    "C05": dict(
        modules=["prune", "search_buffer"], native=["c05.cpp"],
        note="The three pruning strategies are verified over an abstract dataset and distance, for both orders; the occlusion rule itself (which candidates a strategy may drop) is replayed natively (bounded), subset/bound/uniqueness/nearest-first are proved.",
        assumptions=[FLOAT, SIZES, NOTERM, VEC, "the candidate pool is sorted by distance and its ids are distinct (the callers' precondition; the code asserts the former)", "comparators: proved in search_buffer"],
        trusted=["std::vector::reserve and std::vector<bool> (contracts)"],
    ),
    "C07": dict(
        modules=["flat", "search_buffer"], native=["c07.cpp"],
        note="The batching driver, the patch kernel and the k-best insertion are proved over an abstract dataset, distance and predicate; the copy into the result, the threading glue and the final sort are replayed natively against brute force (bounded).",
        assumptions=[FLOAT, SIZES, NOTERM, "1, 3 and 128 dimensions are proved for the address arithmetic of the query rows (all dimensions in C10)", "at least one neighbor is requested", "query batches are handed out exactly once (C09)", "comparators: proved in search_buffer"],
        trusted=["std::pop_heap, std::push_heap, std::sort_heap (libstdc++): permutations that keep the maximum in front", "threads::run calls the body for every partition (C09)"],
    ),
    "C12": dict(
        modules=["compact"], native=["c12.cpp"],
        note="Proved for all dataset sizes, maps, buffer sizes, for the single-threaded schedule of compact_data over datasets of opaque vectors; several threads run the same loop bodies over the disjoint partitions of C09 (replayed natively).",
        assumptions=[SIZES, NOTERM, "the map from new to old positions is strictly increasing (hence new position <= old position) and inside the dataset, the buffer holds at least one vector (callers' preconditions)", "data and buffer do not overlap", "copying one vector between dataset and buffer preserves it (C10)"],
        trusted=["threads::run calls the body for every partition (C09)"],
    ),
    "C13": dict(
        modules=["consolidate", "prune"], native=["c13.cpp"],
        note="Every member of GraphConsolidator is proved over an abstract graph, dataset, distance and deletion predicate; the update buffer is proved for lists of 1, 24 and 64 neighbors; pruning is C05. The hand-over to threads is by contract (C09) and replayed natively.",
        assumptions=[FLOAT, SIZES, NOTERM, "graphs have fewer than 2^32 vertices (32-bit ids); neighbor ids are vertices of the graph (C06)", "the prefix existential 'one of the first k neighbors contributes x' is given by its recursive definition", "comparators: proved in search_buffer", "per-thread scratch space is private to its thread (SequentialTLS)"],
        trusted=["tsl::robin_set (third party): a set with insert, range insert, clear and iteration over its distinct elements", "std::sort: sorted permutation", "std::vector::push_back appends", "threads::run calls the body for every partition (C09)"],
    ),
    "C11": dict(
        modules=["translation"], native=["c11.cpp"],
        note="Every operation of IDTranslator is proved to keep the two directions inverse to each other and to change exactly the given ids, for all tables, id lists and ids; saving, loading and iteration are replayed natively (bounded).",
        assumptions=[SIZES, NOTERM, "external ids below 2^60, internal ids below 2^32 (an insertion of a larger internal id is refused by insert_translation, proved, but in the middle of insert)", "ids given to one deletion are distinct (documented precondition of the functions)", "insert and delete are proved with their checks enabled (the default)"],
        trusted=["tsl::robin_map and tsl::robin_set (third party): maps and sets with find, insert, erase, at and operator[]"],
    ),
    "C04": dict(
        modules=["greedy", "prefetch"], native=["c04.cpp"],
        note="greedy_search is proved over an abstract graph, dataset, distance, buffer and tracker for all graphs, entry points and prefetch settings; the buffer's own behaviour is C01, its filter C03. The results of whole searches (VamanaIndex, all threads) are replayed against an independent best-first search and brute force (bounded).",
        assumptions=[FLOAT, SIZES, NOTERM, "graphs have fewer than 2^32 vertices and neighbor ids are vertices of the graph (C06)", "the buffer and the prefetch hints act only through their contracts; termination of the search is not proved", "at least as many vertices are reachable as results are requested (the batched search copies that many entries unconditionally)"],
        trusted=["one call of the prefetcher's operations for an arbitrary index stands for its loop (the real prefetcher is proved in harness/prefetch.cpp)"],
    ),
    "C14": dict(
        modules=["build", "greedy"], native=["c14.cpp", "c04.cpp"],
        note="VamanaBuilder's three passes and BackedgeBuffer are proved over an abstract graph, dataset, distance and search for all graphs, ranges, parameters and shares of the work; pruning is C05, the search C04. Whole builds are replayed against a direct computation of every list (bounded).",
        assumptions=[FLOAT, SIZES, NOTERM, "the graph built over has no self loops before the pass (kept by pruning, checked natively)", "each thread reads the list of a vertex as it was when the thread got to it (lists of the batch may be extended by other threads meanwhile, a race of the original code)", "the update that up_back() returns is the one just appended"],
        trusted=["threads::run runs the body once per thread on that thread's share (C09)", "std::sort, std::vector growth, tsl::robin_set and robin_map through their documented contracts", "the search results are ids of the dataset with the distances recorded by the search (what the search records is proved with greedy_search)"],
    ),
    "C19": dict(
        modules=["dynamic"], native=["c19.cpp"],
        note="Every mutation of the dynamic index is proved over an abstract graph, dataset, translation, builder and consolidation, for all slot tables, id lists, sizes and batch sizes; consolidation is C13, the compaction of the data C12, the translation C11. Histories of operations are replayed against a model (bounded).",
        assumptions=[FLOAT, SIZES, NOTERM, "graph, dataset and slot table have the same size before each operation (proved to be kept)", "ids to delete are distinct; the entry point is not an empty slot (kept by consolidate and compact)", "compact runs after consolidate, as documented: edges and the entry point lead to valid slots"],
        trusted=["threads::run runs the body once per thread on that thread's share (C09)", "std::vector growth and tsl::robin_map through their documented contracts", "compute_entry_point returns a slot its predicate accepts", "VamanaBuilder::construct (C14)"],
    ),
    "C18": dict(
        modules=["fileio"], native=["c18.cpp"],
        note="Writers, readers, the checks of a file's size, load and save are proved over a ghost file: the members of the standard streams are contracts that track the position and compare every byte range written with what the format requires, for all vectors, sizes and contents. Whole round trips through real files are replayed (bounded).",
        assumptions=[SIZES, "the streams work: a write stores the bytes, a read returns them, no I/O error (the code checks none)", "vectors have the writer's declared dimension (the code does not check it)", "a native file is as long as its header says"],
        trusted=["std::istream::read, seekg, tellg, std::ostream::write, seekp, tellp, open_read, open_write through their documented contracts", "std::filesystem::path"],
    ),
}
