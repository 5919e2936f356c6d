#include "common.h"
#include "svs/index/vamana/dynamic_search_buffer.h"
using namespace svs;
using namespace svs::index::vamana;
using L = MutableBuffer<uint32_t, std::less<>>;
using G = MutableBuffer<uint32_t, std::greater<>>;
using N = PredicatedSearchNeighbor<uint32_t>;
using F = VisitedFilter<uint32_t, 16>;
VP_OFFSET(mb_target, L, target_valid_)
VP_OFFSET(mb_cap, L, valid_capacity_)
VP_OFFSET(mb_best, L, best_unvisited_)
VP_OFFSET(mb_roi, L, roi_end_)
VP_OFFSET(mb_valid, L, valid_)
VP_OFFSET(mb_cand, L, candidates_)
VP_OFFSET(mb_visited, L, visited_)
VP_CONST(mb_sizeof, sizeof(L))
VP_CONST(n_sizeof, sizeof(N))
VP_OFFSET(n_id, N, id_)
VP_OFFSET(n_dist, N, distance_)
VP_OFFSET(n_val, N, value_)
VP_CONST(f_sizeof, sizeof(F))
VP_OFFSET(f_values, F, values_)
VP_CONST(f_capacity, F::filter_capacity)
extern "C" {
#define BOTH(X) X(lt, L) X(gt, G)
#define INSERT(s, B) size_t vp_insert_##s(B& b, uint32_t id, float d, bool v) { return b.insert(N(id, d, v)); }
#define NEXT(s, B) const N* vp_next_##s(B& b) { return &b.next(); }
#define DONE(s, B) bool vp_done_##s(B& b) { return b.done(); }
#define PUSH(s, B) void vp_push_back_##s(B& b, uint32_t id, float d, bool v) { b.push_back(N(id, d, v)); }
#define SKIP(s, B) bool vp_can_skip_##s(B& b, float d) { return b.can_skip(d); }
#define CLEAR(s, B) void vp_clear_##s(B& b) { b.clear(); }
#define FULL(s, B) bool vp_full_##s(B& b) { return b.full(); }
#define SORT(s, B) void vp_sort_##s(B& b) { b.sort(); }
#define CLEAN(s, B) void vp_cleanup_##s(B& b) { b.cleanup(); }
BOTH(INSERT) BOTH(NEXT) BOTH(DONE) BOTH(PUSH) BOTH(SKIP) BOTH(CLEAR) BOTH(FULL) BOTH(SORT) BOTH(CLEAN)
}
