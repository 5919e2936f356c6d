#include "common.h"
#include "svs/index/vamana/search_buffer.h"
using namespace svs;
using namespace svs::index::vamana;
template <typename C> using SB = SearchBuffer<uint32_t, C>;
using L = SB<std::less<>>;
using G = SB<std::greater<>>;
using N = SearchNeighbor<uint32_t>;
using F = VisitedFilter<uint32_t, 16>;
using F8 = VisitedFilter<uint32_t, 8>;

VP_OFFSET(sb_size, L, size_)
VP_OFFSET(sb_best, L, best_unvisited_)
VP_OFFSET(sb_window, L, search_window_size_)
VP_OFFSET(sb_capacity, L, capacity_)
VP_OFFSET(sb_cand, L, candidates_)
VP_OFFSET(sb_visited, L, visited_)
VP_CONST(sb_sizeof, sizeof(L))
VP_CONST(n_sizeof, sizeof(N))
VP_OFFSET(n_id, N, id_)
VP_OFFSET(n_dist, N, distance_)
VP_OFFSET(n_vis, N, visited_)
VP_CONST(f_sizeof, sizeof(F))
VP_OFFSET(f_values, F, values_)
VP_CONST(f8_sizeof, sizeof(F8))
VP_CONST(f_capacity, F::filter_capacity)
VP_CONST(f8_capacity, F8::filter_capacity)

extern "C" {
#define BOTH(X) X(lt, L) X(gt, G)
#define INSERT(s, B) size_t vp_insert_##s(B& b, uint32_t id, float d) { return b.insert(N(id, d)); }
#define NEXT(s, B) const N* vp_next_##s(B& b) { return &b.next(); }
#define DONE(s, B) bool vp_done_##s(B& b) { return b.done(); }
#define PUSH(s, B) void vp_push_back_##s(B& b, uint32_t id, float d) { b.push_back(N(id, d)); }
#define SKIP(s, B) bool vp_can_skip_##s(B& b, float d) { return b.can_skip(d); }
#define CLEAR(s, B) void vp_clear_##s(B& b) { b.clear(); }
#define FULL(s, B) bool vp_full_##s(B& b) { return b.full(); }
#define SORT(s, B) void vp_sort_##s(B& b) { b.sort(); }
#define EMPL(s, B) bool vp_emplace_##s(B& b, uint32_t id) { return b.emplace_visited(id); }
#define ISV(s, B) bool vp_is_visited_##s(B& b, uint32_t id) { return b.is_visited(id); }
BOTH(INSERT) BOTH(NEXT) BOTH(DONE) BOTH(PUSH) BOTH(SKIP) BOTH(CLEAR) BOTH(FULL) BOTH(SORT) BOTH(EMPL) BOTH(ISV)
// comparison of two candidates
bool vp_less(N& a, N& b) { return std::less<>()(a, b); }
bool vp_greater(N& a, N& b) { return std::greater<>()(a, b); }
bool vp_less_p(PredicatedSearchNeighbor<uint32_t>& a, PredicatedSearchNeighbor<uint32_t>& b) { return std::less<>()(a, b); }
bool vp_total_less(Neighbor<uint32_t>& a, Neighbor<uint32_t>& b) { return TotalOrder(std::less<>())(a, b); }
bool vp_total_greater(Neighbor<uint32_t>& a, Neighbor<uint32_t>& b) { return TotalOrder(std::greater<>())(a, b); }
// the filter itself
bool vp_filter_emplace(F& f, uint32_t k) { return f.emplace(k); }
bool vp_filter_contains(F& f, uint32_t k) { return f.contains(k); }
void vp_filter_reset(F& f) { f.reset(); }
bool vp_filter8_emplace(F8& f, uint32_t k) { return f.emplace(k); }
bool vp_filter8_contains(F8& f, uint32_t k) { return f.contains(k); }
void vp_filter8_reset(F8& f) { f.reset(); }
}
