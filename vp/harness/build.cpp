// Graph construction (index/vamana/vamana_build.h) over an abstract graph, dataset, distance and
// search buffer; one call of threads::run's body for an arbitrary share of the work.
#include "common.h"
#include "svs/core/data/simple.h"
#include "svs/index/vamana/prune.h"
#include "svs/index/vamana/search_buffer.h"
#include "svs/index/vamana/search_tracker.h"
#include "svs/lib/neighbor.h"
#include "svs/lib/threads/threadpool.h"
#include "svs/lib/threads/threadlocal.h"
extern "C" {
float vp_dist(size_t a, size_t b) noexcept;
void vp_fix(size_t a) noexcept;
const uint32_t* vp_adj(const void* g, uint32_t i) noexcept;
size_t vp_deg(const void* g, uint32_t i) noexcept;
void vp_replace(void* g, uint32_t i, const uint32_t* p, size_t n);
size_t vp_add(void* g, uint32_t i, uint32_t j);
size_t vp_lo() noexcept;
size_t vp_hi() noexcept;
size_t vp_tid() noexcept;
size_t vp_pool_size() noexcept;
void vp_pv_push(void* v, size_t i, float d) noexcept;
void vp_pv_clear(void* v) noexcept;
void vp_pv_resize(void* v, size_t n) noexcept;
size_t vp_pv_size(const void* v) noexcept;
void* vp_pv_data(const void* v) noexcept;
void vp_tls_new(void* t, size_t n) noexcept;
void* vp_tls_at(void* t, size_t i) noexcept;
void vp_up_add(void* u, size_t v) noexcept;
void* vp_up_back(void* u) noexcept;
const void* vp_up_begin(const void* u) noexcept;
const void* vp_up_end(const void* u) noexcept;
void vp_run_begin(size_t b, size_t e) noexcept;
void vp_run_end() noexcept;
void vp_sb_new(void* b, size_t w) noexcept;
void vp_sb_clear(void* b) noexcept;
void vp_sb_visited(void* b) noexcept;
size_t vp_sb_size(const void* b) noexcept;
const void* vp_sb_at(const void* b, size_t i) noexcept;
void vp_tr_new(void* t, bool on) noexcept;
void vp_tr_clear(void* t) noexcept;
bool vp_tr_on(const void* t) noexcept;
const void* vp_tr_begin(const void* t) noexcept;
const void* vp_tr_end(const void* t) noexcept;
}
struct VpPool {
    size_t size() const { return vp_pool_size(); }
    void run(svs::threads::FunctionRef) {}
};
struct Vec { size_t i; };
struct Vecs {
    using value_type = Vec;
    using const_value_type = Vec;
    size_t n;
    size_t size() const { return n; }
    size_t dimensions() const { return 1; }
    Vec get_datum(size_t i) const { return Vec{i}; }
    void prefetch(size_t) const {}
};
struct Dist {
    using compare = std::less<>;
    static constexpr bool must_fix_argument = true;
    void fix_argument(const Vec& a) { vp_fix(a.i); }
    float compute(const Vec& a, const Vec& b) const { return vp_dist(a.i, b.i); }
};
inline float compute(Dist& d, const Vec& a, const Vec& b) { return d.compute(a, b); }
namespace svs::index::vamana {
template <> struct PruneStrategy<Dist> { using type = LegacyPruneStrategy; };
template <> class SearchBuffer<uint32_t, std::less<>> {
    void* token = nullptr;
  public:
    explicit SearchBuffer(size_t w) { vp_sb_new(this, w); }
    void enable_visited_set() { vp_sb_visited(this); }
    void clear() { vp_sb_clear(this); }
    // the search itself is under its own contract (C04): these are only there to be named
    void sort() {}
    bool done() const { return true; }
    Neighbor<uint32_t> next() { return {}; }
    template <class X> void push_back(X) {}
    template <class X> size_t insert(X) { return 0; }
    bool visited_set_enabled() const { return false; }
    bool is_visited(uint32_t) const { return false; }
    bool emplace_visited(uint32_t) { return false; }
    bool unsafe_is_visited(uint32_t) const { return false; }
    bool unsafe_emplace_visited(uint32_t) { return false; }
    void prefetch_visited(uint32_t) const {}
    void unsafe_prefetch_visited(uint32_t) const {}
    size_t size() const { return vp_sb_size(this); }
    const SearchNeighbor<uint32_t>& operator[](size_t i) const { return *(const SearchNeighbor<uint32_t>*)vp_sb_at(this, i); }
};
} // namespace svs::index::vamana
struct Graph {
    using index_type = uint32_t;
    using value_type = std::span<uint32_t>;
    using const_value_type = std::span<const uint32_t>;
    using reference = std::span<uint32_t>;
    using const_reference = std::span<const uint32_t>;
    size_t n;
    size_t max_degree() const { return 64; }
    size_t n_nodes() const { return n; }
    std::span<const uint32_t> get_node(uint32_t i) const { return {vp_adj(this, i), vp_deg(this, i)}; }
    size_t get_node_degree(uint32_t i) const { return vp_deg(this, i); }
    void prefetch_node(uint32_t) const {}
    size_t add_edge(uint32_t i, uint32_t j) { return vp_add(this, i, j); }
    void clear_node(uint32_t) {}
    void replace_node(uint32_t i, const std::vector<uint32_t>& v) { vp_replace(this, i, v.data(), v.size()); }
    void replace_node(uint32_t i, std::span<const uint32_t> v) { vp_replace(this, i, v.data(), v.size()); }
};
// the updates of one thread: an append-only list of (vertex, neighbors)
using UpEntry = std::pair<uint32_t, std::vector<uint32_t>>;
template <> class std::vector<UpEntry> {
    void* token = nullptr;
  public:
    void emplace_back(uint32_t v, std::vector<uint32_t>&&) { vp_up_add(this, v); }
    UpEntry& back() { return *(UpEntry*)vp_up_back(this); }
    const UpEntry* begin() const { return (const UpEntry*)vp_up_begin(this); }
    const UpEntry* end() const { return (const UpEntry*)vp_up_end(this); }
};
template <> class svs::threads::SequentialTLS<std::vector<UpEntry>> {
    void* token = nullptr;
  public:
    SequentialTLS(size_t n) { vp_tls_new(this, n); }
    std::vector<UpEntry>& at(size_t i) { return *(std::vector<UpEntry>*)vp_tls_at(this, i); }
    const std::vector<UpEntry>& at(size_t i) const { return *(const std::vector<UpEntry>*)vp_tls_at((void*)this, i); }
};
// candidate lists: sequences that are appended to, truncated, sorted and read
template <> class std::vector<svs::Neighbor<uint32_t>> {
    using N = svs::Neighbor<uint32_t>;
    void* token = nullptr;
  public:
    using value_type = N;
    using allocator_type = std::allocator<N>;
    vector() = default;
    void push_back(N n) { vp_pv_push(this, n.id(), n.distance()); }
    void emplace_back(uint32_t i, float d) { vp_pv_push(this, i, d); }
    void clear() { vp_pv_clear(this); }
    void resize(size_t n) { vp_pv_resize(this, n); }
    void reserve(size_t) {}
    size_t size() const { return vp_pv_size(this); }
    bool empty() const { return size() == 0; }
    N* data() { return (N*)vp_pv_data(this); }
    const N* data() const { return (const N*)vp_pv_data(this); }
    N* begin() { return data(); }
    N* end() { return data() + size(); }
    const N* begin() const { return data(); }
    const N* end() const { return data() + size(); }
};
VP_CONST(up_sizeof, sizeof(UpEntry))
namespace svs::threads {
// the contract of threads::run (C09): the body runs for a share [lo, hi) of the positions
template <typename T, typename F> void run(VpPool&, StaticPartition<T> p, F&& f) {
    vp_run_begin(0, p.size());
    auto share = IteratorPair{p.begin() + vp_lo(), p.begin() + vp_hi()};
    f(share, vp_tid());
    vp_run_end();
}
template <typename T, typename F> void run(VpPool&, DynamicPartition<T> p, F&& f) {
    vp_run_begin(0, p.size());
    auto share = IteratorPair{p.begin() + vp_lo(), p.begin() + vp_hi()};
    f(share, vp_tid());
    vp_run_end();
}
template <typename F> void run(VpPool&, F&& f) {
    vp_run_begin(0, 0);
    f(vp_tid());
    vp_run_end();
}
} // namespace svs::threads
#include "svs/index/vamana/vamana_build.h"
namespace svs::index::vamana {
template <> class OptionalTracker<uint32_t> {
    void* token = nullptr;
  public:
    using const_iterator = const Neighbor<uint32_t>*;
    OptionalTracker(bool on) { vp_tr_new(this, on); }
    bool enabled() const { return vp_tr_on(this); }
    void clear() { vp_tr_clear(this); }
    const Neighbor<uint32_t>* begin() const { return (const Neighbor<uint32_t>*)vp_tr_begin(this); }
    const Neighbor<uint32_t>* end() const { return (const Neighbor<uint32_t>*)vp_tr_end(this); }
    void visited(const Neighbor<uint32_t>&, size_t) {}
};
}
using namespace svs;
using namespace svs::index::vamana;
using B = VamanaBuilder<Graph, Vecs, Dist, VpPool>;
using N = Neighbor<uint32_t>;
using R = threads::UnitRange<size_t>;
extern "C" {
void vp_generate(B& b, const R& r, float alpha, const std::vector<uint32_t>& ep, lib::Timer& t) { b.generate_neighbors(r, alpha, ep, t); }
void vp_reverse(B& b, const R& r, float alpha, lib::Timer& t) { b.add_reverse_edges(r, alpha, t); }
void vp_construct(B& b, float alpha, uint32_t ep, const R& r) { b.construct(alpha, ep, r, logging::Level::Info); }
void vp_be_add(BackedgeBuffer<uint32_t>& b, uint32_t s, uint32_t d) { b.add_edge(s, d); }
void vp_be_reset(BackedgeBuffer<uint32_t>& b) { b.reset(); }
}
VP_CONST(n_sizeof, sizeof(N))
VP_OFFSET(n_id, N, id_)
VP_OFFSET(n_dist, N, distance_)
VP_CONST(sn_sizeof, sizeof(SearchNeighbor<uint32_t>))
VP_OFFSET(sn_id, SearchNeighbor<uint32_t>, id_)
VP_OFFSET(sn_dist, SearchNeighbor<uint32_t>, distance_)
VP_CONST(b_sizeof, sizeof(B))
VP_OFFSET(b_graph, B, graph_)
VP_OFFSET(b_data, B, data_)
VP_OFFSET(b_params, B, params_)
VP_OFFSET(b_pool, B, threadpool_)
VP_OFFSET(b_locks, B, vertex_locks_)
VP_OFFSET(b_be, B, backedge_buffer_)
