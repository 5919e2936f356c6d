I = "include/svs/"
V = I + "index/vamana/"
NA = {}
TEXT = [
 dict(id="C01", title="Static search buffer keeps the best candidates, sorted and deduplicated",
  statement="For every sequence of operations, the fixed-size candidate buffer used by graph search holds at most its capacity of candidates, sorted best distance first, and inserting a candidate either places it at its sorted position (dropping only the worst when full), rejects an exact repeat, or skips one strictly worse than everything in a full buffer. Asking for the next candidate always yields the best unexpanded one and marks it expanded, and the search is reported finished exactly when every candidate in the search window has been expanded. Clearing empties it and no operation reads or writes outside its storage.",
  over=["histories", "inputs"], qtext="all buffer sizes, windows, candidate ids and distances, both distance orders, and every sequence of operations",
  why="tests replay a handful of random insert sequences with fixed seeds and sizes; the guarantee is over every sequence and every tie/duplicate/full-buffer combination",
  files=[V + "search_buffer.h", I + "lib/neighbor.h"],
  mech=[("sorted insertion with duplicate rejection", V + "search_buffer.h: insert/insert_inner/unsafe_insert/can_skip"), ("frontier index", V + "search_buffer.h: next/done"), ("ordering of candidates", I + "lib/neighbor.h: operator<, operator>")],
  state=[("sorted prefix", "positions 0..size-1 sorted by distance", V + "search_buffer.h"), ("frontier", "every candidate before it has been expanded", V + "search_buffer.h")], observe=["SearchBuffer public interface"]),
 dict(id="C02", title="Mutable search buffer counts and keeps valid candidates correctly",
  statement="The growable candidate buffer used when entries can be deleted stays sorted best distance first, its count of valid candidates always equals the number of valid entries it stores and never exceeds its capacity, and its region of interest ends just past the entry that completes the target number of valid candidates (or at the end of the buffer while there are fewer). Inserting places a new candidate at its sorted position, rejects an exact repeat, and drops entries only from the far end beyond the last needed valid one; the final cleanup removes exactly the invalid entries and keeps the order of the rest.",
  over=["histories", "inputs"], qtext="all targets and capacities, all sequences of insert/next/sort/cleanup with any mix of valid and invalid candidates (buffers of fewer than 2^16 entries)",
  why="the buffer's invariants interact (target, capacity, region end, validity); tests sample a few random streams",
  files=[V + "dynamic_search_buffer.h"],
  mech=[("insertion and invariant restoration", V + "dynamic_search_buffer.h: insert/insert_inner/unsafe_insert"), ("sort/cleanup", V + "dynamic_search_buffer.h: sort, cleanup")],
  state=[("valid count", "number of valid entries in the buffer", V + "dynamic_search_buffer.h"), ("region end", "one past the target-th valid entry", V + "dynamic_search_buffer.h")]),
 dict(id="C03", title="Visited filter never reports an id that was not recorded",
  statement="The visited filter reports an id as visited only if that very id was recorded since the last reset, for every id below 2^32 - 2^16; it may forget ids but never invents one. After a reset nothing is reported as visited, recording an id makes it visible immediately, and a disabled filter reports nothing.",
  over=["histories", "inputs"], qtext="all id values below 2^32 - 2^16 and all sequences of record/query/reset",
  why="a false positive silently drops a neighbor from a search; it needs a specific colliding pair of ids among 2^64 pairs, tests try a few random ones",
  files=[V + "filter.h", V + "search_buffer.h", V + "dynamic_search_buffer.h"],
  mech=[("slot index and tag reconstruct the id", V + "filter.h: hash/check/value"), ("reset", V + "filter.h: reset")]),
 dict(id="C04", title="Graph search expands candidates completely and returns the nearest ones it has seen",
  statement="For every graph, dataset, query, distance, set of entry points, window, capacity and prefetch setting: a search puts every entry point into the emptied buffer with its exact distance; repeatedly takes the best unexpanded candidate within the window and offers every one of its neighbors that was not recorded as visited, once, with its exact distance, before taking the next; records every entry point and every expanded vertex, once, with its exact distance; accesses only vertices of the graph; and stops only when no unexpanded candidate is left within the window. Hence the results are the nearest vertices seen by a best-first search of that window and capacity, in order, for every query of a batch, thread count and reuse of the buffer; if the buffer can hold every vertex and all are reachable, they are the exact nearest neighbors.",
  over=["inputs", "schedules"], qtext="all graphs, queries, entry points, buffer configurations, prefetch settings and thread counts",
  why="a skipped neighbor, a stale distance or an early stop only lowers recall, which thresholds on a few datasets do not notice; prefetching runs ahead of bounds",
  files=[V + "greedy_search.h", V + "extensions.h", V + "index.h", "include/svs/lib/prefetch.h"],
  mech=[("search", V + "greedy_search.h: greedy_search"), ("prefetching", "include/svs/lib/prefetch.h: Prefetcher"), ("batches", V + "extensions.h: per_thread_batch_search; " + V + "index.h: VamanaIndex::search")],
  state=[("search buffer", "sorted candidates with an expanded mark", V + "search_buffer.h")],
  observe=["VamanaIndex::search", "greedy_search"]),
 dict(id="C05", title="Neighbor pruning selects a bounded, duplicate-free subset headed by the nearest candidate",
  statement="For every candidate pool (sorted, distinct ids), every alpha, every maximum degree and every distance, the pruning strategies return at most the maximum number of neighbors, all of them from the pool, none twice and never the vertex itself; an empty pool gives an empty result, whatever the result vector held before. The nearest candidate other than the vertex itself is always selected first (whenever at least one neighbor may be selected and the first round runs), and each strategy then keeps exactly the candidates its occlusion rule allows: the single-pass strategy keeps a candidate exactly when no neighbor selected earlier occludes it.",
  over=["inputs"], qtext="all pools, distances, alphas, maximum degrees and both distance orders; the occlusion rule itself is replayed on bounded pools",
  why="the result depends on every relation among all candidates and on alpha; tests prune a few hand-made pools",
  files=[V + "prune.h"],
  mech=[("single pass", V + "prune.h: heuristic_prune_neighbors(LegacyPruneStrategy)"), ("rounds with growing alpha", V + "prune.h: heuristic_prune_neighbors(IterativePruneStrategy / ProgressivePruneStrategy)")],
  observe=["heuristic_prune_neighbors"]),
 dict(id="C07", title="Exhaustive search returns exactly the k best matches",
  statement="For every dataset, query set, distance, predicate, number of neighbors, data and query batch size and thread count, the flat index returns for each query the k best data points among those that satisfy the predicate, best first, each at most once and with the exact distance of that query to that point; no point that fails the predicate is ever returned. If fewer than k points match, all of them are returned first and the remaining slots hold a distance worse than any real one. Every (query, matching data point) pair is considered exactly once whatever the batch sizes.",
  over=["inputs", "schedules"], qtext="all dataset and batch sizes, all predicates, all distances (ties included), any number of threads",
  why="an error at a batch border, on a tie at the k-th place or under a predicate changes single results for particular sizes only; the flat index is the ground truth the other results are measured against",
  files=[I + "index/flat/flat.h", I + "index/flat/inserters.h"],
  mech=[("data batches", I + "index/flat/flat.h: search, compute_data_batch_size"), ("patch kernel", I + "index/flat/flat.h: search_patch"), ("k-best insertion", I + "index/flat/inserters.h: HeapInserter::insert, prepare")],
  observe=["FlatIndex::search"]),
 dict(id="C08", title="Distance kernels include every component exactly once",
  statement="For every vector length (including lengths that are not a multiple of the SIMD width, and zero), every supported pair of element types (float, half, signed and unsigned bytes) and every instruction set, the squared-L2, inner-product and cosine kernels return the mathematical value over all components, up to floating-point rounding, and read nothing outside the two vectors. Integer accumulation does not overflow for byte vectors of up to 32768 components, including the extreme values. For cosine, preparing the query stores its exact norm and the result is the inner product over the product of both norms.",
  over=["inputs"], qtext="all lengths, all component values, both instruction sets (AVX-512 VNNI and AVX2), static and dynamic extents",
  why="a bug in the tail mask, an unrolled block or a lane width shows only for particular lengths or extreme components; tests sample a few lengths",
  files=[I + "core/distance/euclidean.h", I + "core/distance/inner_product.h", I + "core/distance/cosine.h", I + "core/distance/simd_utils.h"],
  mech=[("SIMD main loop, unrolled blocks and masked tail", I + "core/distance/simd_utils.h: generic_simd_op, create_mask, islast"), ("integer kernels", I + "core/distance/euclidean.h: L2Impl; inner_product.h: IPImpl; cosine.h: CosineSimilarityImpl"), ("query norm", I + "core/distance/cosine.h: fix_argument, norm_square")],
  observe=["svs::distance::compute"]),
 dict(id="C09", title="Parallel work partitioning hands out every index exactly once",
  statement="For every index-space size and thread count, static partitioning gives each thread one contiguous share; the shares cover the index space exactly once and differ in length by at most one, and a thread with an empty share is not called. Dynamic partitioning hands out consecutive chunks of exactly the grain size (the last one possibly shorter), every index in exactly one chunk whatever the interleaving of the threads, and a thread stops only when all chunks have been handed out. Range objects report their size, membership and elements consistently (an empty range contains nothing).",
  over=["inputs", "schedules"], qtext="all index-space sizes below 2^62, all thread counts and thread ids, all grain sizes, all orders in which threads draw chunks",
  why="an index lost or processed twice needs a particular remainder of size and thread count or grain; tests try a few combinations",
  files=[I + "lib/threads/types.h", I + "lib/threads/thunks.h", I + "lib/threads/threadpool.h"],
  mech=[("even division with remainder", I + "lib/threads/types.h: balance"), ("ticket counter", I + "lib/threads/thunks.h: Thunk<F, DynamicPartition>"), ("range type", I + "lib/threads/types.h: UnitRange")],
  observe=["svs::threads::parallel_for / run with StaticPartition and DynamicPartition"]),
 dict(id="C11", title="External and internal ids stay in one-to-one correspondence",
  statement="For every history of insertions, deletions by external or internal id, remappings, saves and loads: the id translation is a one-to-one correspondence - looking up an external id yields the internal id it was last associated with and vice versa, ids never inserted or deleted since are unknown in both directions, and the size is the number of pairs. An insertion with repeated ids, ids already present or lists of different lengths, or a deletion of an unknown id, is refused with an exception and changes nothing; everything else is accepted.",
  over=["inputs", "histories"], qtext="all tables, id lists and histories of operations",
  why="two hash maps have to be updated in step; an entry left behind or overwritten in one of them shows only when an id is reused later",
  files=["include/svs/core/translation.h", "include/svs/lib/algorithms.h"],
  mech=[("updates", "include/svs/core/translation.h: insert, insert_translation, remap_internal_id, delete_internal, delete_external"), ("checks", "include/svs/core/translation.h: check, include/svs/lib/algorithms.h: all_unique"), ("persistence", "include/svs/core/translation.h: save, load")],
  state=[("two maps", "external to internal and back, inverse to each other", "include/svs/core/translation.h")],
  observe=["IDTranslator", "MutableVamanaIndex::translate_external_id"]),
 dict(id="C12", title="Compaction moves every kept vector to its new position",
  statement="For every dataset, every increasing list of kept positions and every batch size and thread count, compacting moves the vector at the i-th kept position to position i unchanged, leaves positions beyond the kept ones and the dataset's size alone, and refuses a scratch buffer of other dimensions without touching the data. A vector is never overwritten before it has been moved.",
  over=["inputs", "schedules"], qtext="all sizes, kept lists, batch sizes and thread counts",
  why="whether source and destination ranges of successive batches interfere depends on the relation of batch size and kept list; tests use a few of them",
  files=[I + "core/compact.h", I + "core/data/simple.h"],
  mech=[("batched copy through a buffer", I + "core/compact.h: compact_data"), ("dataset entry points", I + "core/data/simple.h: compact")],
  state=[("dataset during compaction", "positions below the batch hold their new vectors, positions from the batch on their old ones", I + "core/compact.h")],
  observe=["SimpleData::compact", "BlockedData::compact", "compact_data"]),
 dict(id="C13", title="Consolidation removes every edge to a deleted vertex and touches nothing else",
  statement="For every graph, dataset, set of deleted vertices, pruning parameters, batch size and thread count: after consolidation no vertex that is kept has a deleted neighbor. A kept vertex without deleted neighbors and every deleted vertex keep their neighbor list unchanged. Every other kept vertex receives the result of pruning, by its distance, the best max_candidate_pool_size of its remaining neighbors and the non-deleted neighbors of its deleted neighbors as they were before consolidation: at most prune_to of them, itself and duplicates excluded.",
  over=["inputs", "schedules"], qtext="all graphs, deletion patterns, batch sizes, pool sizes and thread counts",
  why="updates are computed in batches over a graph that is being rewritten; wrong indices at batch and thread borders or a missed vertex leave dangling edges that only later searches stumble over",
  files=[V + "consolidate.h", V + "prune.h"],
  mech=[("candidates", V + "consolidate.h: populate_candidates, filter_candidates"), ("updates", V + "consolidate.h: generate_updates, apply_updates"), ("batches", V + "consolidate.h: operator(), BulkUpdate")],
  state=[("pending updates", "one list per vertex of the batch, valid when marked", V + "consolidate.h")],
  observe=["consolidate", "GraphConsolidator"]),
 dict(id="C14", title="Graph construction links every vertex to the pruning of what its search found, and back",
  statement="For every dataset, graph, range of vertices, build parameters, alpha and number of threads: each vertex of each batch is searched from the entry point with nothing left over from the vertex before; its new list is the pruning, to the maximal degree, of everything the search recorded (every vertex it expanded, with its exact distance) together with its previous neighbors, each once, nearest first, cut off at the maximal pool size; the lists of a batch replace the old ones only after all its searches; then every edge of the batch is reversed, by appending under the lock of its source if the list has room and otherwise through the overflow, and exactly the overflowing lists become the pruning (to prune_to) of the union of list and overflow. The batches follow one another and cover the range. Hence no list exceeds the maximal degree or names the vertex itself, a vertex twice or one outside of the dataset.",
  over=["inputs", "schedules"], qtext="all datasets, graphs, ranges, parameters and thread counts",
  why="the repository has no reference for a built graph: a lost candidate, a stale scratch list or a skipped overflow bucket gives a graph that still searches acceptably on the sampled datasets",
  files=[V + "vamana_build.h", V + "extensions.h"],
  mech=[("searches", V + "vamana_build.h: VamanaBuilder::generate_neighbors"), ("reverse edges", V + "vamana_build.h: VamanaBuilder::add_reverse_edges, BackedgeBuffer"), ("batches", V + "vamana_build.h: VamanaBuilder::construct")],
  state=[("overflow", "vertex -> set of sources", V + "vamana_build.h: BackedgeBuffer"), ("updates", "per thread list of (vertex, list)", V + "vamana_build.h")],
  observe=["VamanaBuilder::construct", "VamanaIndex build"]),
 dict(id="C18", title="A file of vectors holds exactly the vectors written, and reading returns exactly them",
  statement="For every dataset, element type, dimension (at least one) and number of vectors, writing it in the native, vecs or bin format puts the number of vectors (where the format stores one), the dimension and every component into the file, unchanged and in order; a value that the requested element type cannot hold is refused. The number of vectors and the dimension reported for a file are those written, whenever the element size is given or known from the dataset's type, and a vecs or bin file whose size does not fit them is refused, never read in part; a bin file without elements is fine. Reading yields exactly the vectors written, or the first so many as asked for, each once and in order, however often the reader is restarted; loading makes a dataset of exactly that many vectors and stores each at its own index, and a dataset or graph saved and loaded again is the same. A native header can be written while vectors are still being added without disturbing them. I/O errors, truncated native files and empty vecs files are out of scope; without an element size a vecs file is read by the smallest of 1, 2, 4, 8 bytes that fits what is inspected.",
  over=["inputs"], qtext="all vectors, dimensions, counts, element types and file sizes",
  why="which sizes and contents go wrong is a matter of arithmetic on the file size: components that look like lengths, one short vector, no vector at all; the tests read a few fixed files",
  files=["include/svs/core/io/native.h", "include/svs/core/io/vecs.h", "include/svs/core/io/binary.h", "include/svs/core/data/io.h", "include/svs/lib/file_iterator.h"],
  mech=[("native format", "include/svs/core/io/native.h: v1::Writer, v1::NativeFile, Reader, get_dims"), ("vecs format", "include/svs/core/io/vecs.h: get_dims, deduce_element_size, VecsReader, VecsWriter"), ("bin format", "include/svs/core/io/binary.h: get_dims, BinaryReader, BinaryWriter"), ("reading and storing", "include/svs/core/data/io.h: load_impl, populate_impl, save; include/svs/lib/file_iterator.h: HeterogeneousFileIterator")],
  state=[("file", "header, then the vectors in order", "include/svs/core/io/native.h")],
  observe=["data::SimpleData::load", "io::save, io::save_vecs", "lib::save_to_disk, load_from_disk", "readers and get_dims of the formats"]),
 dict(id="C19", title="The dynamic index keeps slots, ids, data and graph in step through every history of mutations",
  statement="For every history of building, adding, deleting, consolidating, compacting, saving and loading: added points take distinct slots that were free, the first ones first, the index growing by exactly the slots that are lacking; their data is stored there, their lists start empty, they are connected with the index's own parameters and exactly they become valid; adding ids that exist, repeat or do not match the points is refused without an observable change, and adding nothing changes nothing. Deleting marks exactly the slots of the given ids, which are forgotten and never returned again; deleting unknown ids is refused. Consolidation frees exactly the deleted slots, after the graph has lost all edges to them, and moves the entry point only if it was deleted, to a valid one. Compaction keeps exactly the valid slots in their order, with their data, ids, lists and the entry point following them. Slots in use are otherwise left alone, so every live id always names the vector it was added with.",
  over=["histories", "inputs"], qtext="all slot tables, id lists, sizes and histories of operations",
  why="the errors to exclude need a particular history: a slot freed and reused, an entry point deleted before consolidation, a compaction whose batch overwrites a list not read yet; the repository's dynamic index test does not run here and samples one history",
  files=[V + "dynamic_index.h", V + "consolidate.h", "include/svs/core/translation.h"],
  mech=[("adding", V + "dynamic_index.h: MutableVamanaIndex::add_points, copy_points, clear_lists"), ("deleting", V + "dynamic_index.h: MutableVamanaIndex::delete_entries, delete_entry, is_deleted"), ("consolidating", V + "dynamic_index.h: MutableVamanaIndex::consolidate"), ("compacting", V + "dynamic_index.h: MutableVamanaIndex::compact, nonmissing_indices")],
  state=[("status_", "slot -> Empty, Valid or Deleted", V + "dynamic_index.h"), ("translator_", "external id <-> slot", "include/svs/core/translation.h"), ("entry_point_", "a valid slot", V + "dynamic_index.h")],
  observe=["MutableVamanaIndex::add_points", "delete_entries", "consolidate", "compact", "search", "save and load"]),
 dict(id="C16", title="Checked narrowing and integer helpers are exact",
  statement="For integers, the checked narrowing conversion either returns exactly the value it was given or raises an error, and it raises an error exactly when the target type cannot represent the value. Division rounding up, rounding up to a multiple, power-of-two division, remainder, product and previous power of two, and bit masks from bit lo to bit hi return the exact mathematical result for every input whose result fits the type, including masks that reach the last bit.",
  over=["inputs"], qtext="all integer values and all pairs of the fixed-width signed and unsigned integer types; all mask bounds",
  why="every id, size and dimension that is stored in a smaller type goes through these; a wrong sign or boundary case shows for single values among 2^64",
  files=[I + "lib/narrow.h", I + "lib/misc.h"],
  mech=[("checked conversion", I + "lib/narrow.h: narrow"), ("integer helpers", I + "lib/misc.h: div_round_up, round_up_to_multiple_of, PowerOfTwo, prevpow2, bitmask")]),
 dict(id="C06", title="Adjacency lists stay well-formed under every update",
  statement="For every graph and every sequence of updates, each vertex's adjacency list holds at most the maximum degree of neighbors. Adding an edge appends the target exactly when it is neither the source itself nor already present and the list is not full, leaves the existing neighbors in place and returns the resulting degree; replacing a list stores exactly the first maximum-degree entries given, in order; clearing empties it; querying an edge answers exactly whether it is stored. No operation touches another vertex's list or memory outside the row, and a new or reset graph has no edges.",
  over=["histories", "inputs"], qtext="all degrees, maximum degrees, vertex ids and adjacency lists, all sequences of add/replace/clear/reset",
  why="search reads adjacency lists without checks: an out-of-row write or duplicate appears only for full lists, repeated edges or over-long replacements",
  files=[I + "core/graph/graph.h", I + "core/data/simple.h"],
  mech=[("row layout: degree then neighbors", I + "core/graph/graph.h: get_node/add_edge/replace_node"), ("full and duplicate checks", I + "core/graph/graph.h: add_edge")], observe=["SimpleGraph / SimpleBlockedGraph public interface"]),
 dict(id="C10", title="Vector storage keeps vectors separate and intact",
  statement="In every dataset, vector i occupies its own `dimensions` components inside the storage: distinct vectors never overlap, writing one vector stores the given components and leaves all others unchanged, and writing a vector of the wrong length is rejected with an error. In block-structured storage every index maps to exactly one block and position whatever the block size, and growing or shrinking keeps every remaining vector's contents with enough blocks for all vectors.",
  over=["histories", "inputs"], qtext="all dataset sizes, dimensions, block sizes, indices and sequences of set/get/resize",
  why="aliasing or addressing errors show only for particular combinations of index, dimension and block size, or at block boundaries after growth",
  files=[I + "core/data/simple.h", I + "lib/array.h"],
  mech=[("row addressing", I + "lib/array.h: DenseArray::slice/getindex"), ("block resolution", I + "core/data/simple.h: BlockedData::resolve"), ("resize", I + "core/data/simple.h: resize")], observe=["SimpleData / BlockedData public interface"]),
]
