// Graph search (index/vamana/greedy_search.h) over an abstract graph, dataset, distance, search buffer and tracker.
#include "common.h"
#include "svs/core/data/simple.h"
#include "svs/lib/neighbor.h"
#include "svs/lib/prefetch.h"
extern "C" size_t vp_any_index(size_t n) noexcept;  // any number below n
// contract view of the loop prefetcher: its operations are called for indices below the limit only
// (proved for the real one in harness/prefetch.cpp); one call for an arbitrary index stands for all
namespace svs::lib {
template <class Op, class Pred> requires (!std::is_void_v<Op>) class Prefetcher<Op, Pred> {
    size_t imax_;
    Op op_;
    Pred pred_;
  public:
    Prefetcher(PrefetchParameters, size_t imax, Op op, Pred pred = Pred{}) : imax_{imax}, op_{op}, pred_{pred} {}
    void operator()() {
        if (imax_ == 0) return;
        size_t i = vp_any_index(imax_);
        if (pred_(i)) op_(i);
    }
    bool done() const { return vp_any_index(2); }
};
}
#include "svs/index/vamana/greedy_search.h"
extern "C" {
float vp_dist(size_t a, size_t b) noexcept;
void vp_fix(size_t a) noexcept;
const uint32_t* vp_adj(const void* g, uint32_t i) noexcept;
size_t vp_deg(const void* g, uint32_t i) noexcept;
void vp_prefetch(size_t i) noexcept;
void vp_prefetch_node(uint32_t i) noexcept;
void vp_b_clear() noexcept;
void vp_b_push(uint32_t i, float d) noexcept;
void vp_b_insert(uint32_t i, float d) noexcept;
void vp_b_sort() noexcept;
bool vp_b_done() noexcept;
uint32_t vp_b_next() noexcept;
float vp_b_next_distance(uint32_t i) noexcept;
uint32_t vp_b_moved() noexcept;
bool vp_b_emplace(uint32_t i) noexcept;
bool vp_b_enabled() noexcept;
bool vp_b_isvisited(uint32_t i) noexcept;
void vp_tracked(uint32_t i, float d, size_t n) noexcept;
}
using namespace svs;
using namespace svs::index::vamana;
struct Vec { size_t i; };
struct Query { size_t i; };
struct Vecs {
    using value_type = Vec;
    using const_value_type = Vec;
    size_t n;
    size_t size() const { return n; }
    size_t dimensions() const { return 1; }
    Vec get_datum(size_t i) const { return Vec{i}; }
    void prefetch(size_t i) const { vp_prefetch(i); }
};
struct Dist {
    using compare = std::less<>;
    static constexpr bool must_fix_argument = true;
    void fix_argument(const Query& a) { vp_fix(a.i); }
    float compute(const Query& a, const Vec& b) const { return vp_dist(a.i, b.i); }
};
inline float compute(Dist& d, const Query& a, const Vec& b) { return d.compute(a, b); }
struct Graph {
    using index_type = uint32_t;
    using value_type = std::span<uint32_t>;
    using const_value_type = std::span<const uint32_t>;
    using reference = std::span<uint32_t>;
    using const_reference = std::span<const uint32_t>;
    size_t n;
    size_t max_degree() const { return 64; }
    size_t n_nodes() const { return n; }
    std::span<const uint32_t> get_node(uint32_t i) const { return {vp_adj(this, i), vp_deg(this, i)}; }
    size_t get_node_degree(uint32_t i) const { return vp_deg(this, i); }
    void prefetch_node(uint32_t i) const { vp_prefetch_node(i); }
};
struct Buffer {
    SearchNeighbor<uint32_t> cur;
    void clear() { vp_b_clear(); }
    void push_back(const SearchNeighbor<uint32_t>& x) { vp_b_push(x.id(), x.distance()); }
    size_t insert(const SearchNeighbor<uint32_t>& x) { vp_b_insert(x.id(), x.distance()); auto o = vp_b_moved(); cur = SearchNeighbor<uint32_t>(o, vp_b_next_distance(o)); return 0; }  // the slot next() referred to may hold another candidate now
    void sort() { vp_b_sort(); }
    bool done() const { return vp_b_done(); }
    const SearchNeighbor<uint32_t>& next() { auto o = vp_b_next(); cur = SearchNeighbor<uint32_t>(o, vp_b_next_distance(o)); return cur; }
    bool emplace_visited(uint32_t i) { return vp_b_emplace(i); }
    bool visited_set_enabled() const { return vp_b_enabled(); }
    bool unsafe_is_visited(uint32_t i) const { return vp_b_isvisited(i); }
    bool is_visited(uint32_t i) const { return vp_b_isvisited(i); }
    void unsafe_prefetch_visited(uint32_t) const {}
};
struct Tracker { void visited(Neighbor<uint32_t> n, size_t c) { vp_tracked(n.id(), n.distance(), c); } };
extern "C" {
void vp_greedy(const Graph& g, const Vecs& v, size_t q, Buffer& b, const uint32_t* ep, size_t nep, size_t lookahead, size_t step) {
    auto a = data::GetDatumAccessor();
    Dist d;
    Tracker t;
    greedy_search(g, v, a, Query{q}, d, b, std::span<const uint32_t>(ep, nep), NeighborBuilder(), t, GreedySearchPrefetchParameters{lookahead, step});
}
}
