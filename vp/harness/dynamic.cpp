// The dynamic index (index/vamana/dynamic_index.h): its slot tables over an abstract graph, dataset,
// id translation, builder and consolidation.
#include "common.h"
#include "svs/core/data/simple.h"
#include "svs/core/graph.h"
#include "svs/core/translation.h"
#include "svs/index/vamana/consolidate.h"
#include "svs/index/vamana/extensions.h"
#include "svs/index/vamana/vamana_build.h"
#include "svs/lib/threads/threadpool.h"
extern "C" {
size_t vp_lo() noexcept;
size_t vp_hi() noexcept;
size_t vp_tid() noexcept;
void vp_run_begin(size_t b, size_t e) noexcept;
void vp_run_end() noexcept;
const uint32_t* vp_adj(const void* g, uint32_t i) noexcept;
size_t vp_deg(const void* g, uint32_t i) noexcept;
void vp_replace(void* g, uint32_t i, const uint32_t* p, size_t n);
void vp_clear_node(void* g, uint32_t i);
void vp_resize(void* o, size_t n);
size_t vp_max_degree(const void* g) noexcept;
void vp_set(void* d, size_t i, size_t v);
void vp_compact_data(void* d, const uint32_t* p, size_t n, size_t batch);
void vp_tmp_new(void* g, size_t n, size_t deg);
void vp_consolidate(size_t prune_to, size_t max_candidates, float alpha);
size_t vp_probe() noexcept;
void vp_probed(bool b) noexcept;
void vp_builder(float alpha, size_t deg, size_t window, size_t pool, size_t prune_to, bool history);
void vp_construct(float alpha, uint32_t entry, const size_t* slots, size_t n);
size_t vp_entry() noexcept;
void vp_entry_ok(bool b) noexcept;
}
struct Vec { size_t i; };
struct Vecs {
    using value_type = Vec;
    using const_value_type = Vec;
    using element_type = float;
    static constexpr size_t extent = svs::Dynamic;
    size_t n;
    size_t size() const { return n; }
    size_t dimensions() const { return 1; }
    Vec get_datum(size_t i) const { return Vec{i}; }
    void set_datum(size_t i, Vec v) { vp_set(this, i, v.i); }
    void prefetch(size_t) const {}
    void resize(size_t m) { vp_resize(this, m); }
    template <class P> void compact(std::span<const uint32_t> m, P&, size_t batch) { vp_compact_data(this, m.data(), m.size(), batch); }
};
struct Dist {
    using compare = std::less<>;
    static constexpr bool must_fix_argument = false;
    float compute(const Vec& a, const Vec& b) const { return 0; }
};
inline float compute(Dist& d, const Vec& a, const Vec& b) { return d.compute(a, b); }
struct Graph {
    using index_type = uint32_t;
    using value_type = std::span<uint32_t>;
    using const_value_type = std::span<const uint32_t>;
    using reference = std::span<uint32_t>;
    using const_reference = std::span<const uint32_t>;
    size_t n;
    size_t max_degree() const { return vp_max_degree(this); }
    size_t n_nodes() const { return n; }
    std::span<const uint32_t> get_node(uint32_t i) const { return {vp_adj(this, i), vp_deg(this, i)}; }
    size_t get_node_degree(uint32_t i) const { return vp_deg(this, i); }
    void prefetch_node(uint32_t) const {}
    size_t add_edge(uint32_t i, uint32_t j) { return 0; }
    void clear_node(uint32_t i) { vp_clear_node(this, i); }
    void replace_node(uint32_t i, const std::vector<uint32_t>& v) { vp_replace(this, i, v.data(), v.size()); }
    void replace_node(uint32_t i, std::span<const uint32_t> v) { vp_replace(this, i, v.data(), v.size()); }
    void unsafe_resize(size_t m) { vp_resize(this, m); }
};
namespace svs::graphs {
// the buffer compaction goes through
template <> class SimpleGraph<uint32_t> {
  public:
    using index_type = uint32_t;
    size_t token;
    SimpleGraph(size_t n, size_t deg) { vp_tmp_new(this, n, deg); }
    std::span<const uint32_t> get_node(uint32_t i) const { return {vp_adj(this, i), vp_deg(this, i)}; }
    size_t get_node_degree(uint32_t i) const { return vp_deg(this, i); }
    void replace_node(uint32_t i, const std::vector<uint32_t>& v) { vp_replace(this, i, v.data(), v.size()); }
    void replace_node(uint32_t i, std::span<const uint32_t> v) { vp_replace(this, i, v.data(), v.size()); }
};
}
namespace svs::threads {
// the contract of threads::run (C09): the body runs for a share [lo, hi) of the positions
template <typename T, typename F> void run(NativeThreadPool&, StaticPartition<T> p, F&& f) {
    vp_run_begin(0, p.size());
    auto share = IteratorPair{p.begin() + vp_lo(), p.begin() + vp_hi()};
    f(share, vp_tid());
    vp_run_end();
}
template <typename T, typename F> void run(NativeThreadPool&, DynamicPartition<T> p, F&& f) {
    vp_run_begin(0, p.size());
    auto share = IteratorPair{p.begin() + vp_lo(), p.begin() + vp_hi()};
    f(share, vp_tid());
    vp_run_end();
}
} // namespace svs::threads
namespace svs::index::vamana {
// consolidation and the choice of an entry point are under contracts of their own: the predicate
// they are given is asked about an arbitrary slot
template <class P> void consolidate(Graph&, const Vecs&, threads::NativeThreadPool&, size_t prune_to, size_t max_candidates, float alpha, const Dist&, P&& is_deleted) {
    vp_probed(is_deleted(vp_probe()));
    vp_consolidate(prune_to, max_candidates, alpha);
}
// construction is under contracts of its own (C14)
template <> class VamanaBuilder<Graph, Vecs, Dist, threads::NativeThreadPool> {
  public:
    size_t token;
    VamanaBuilder(Graph&, const Vecs&, Dist, const VamanaBuildParameters& p, threads::NativeThreadPool&, GreedySearchPrefetchParameters = {}) {
        vp_builder(p.alpha, p.graph_max_degree, p.window_size, p.max_candidate_pool_size, p.prune_to, p.use_full_search_history);
    }
    template <class R> void construct(float alpha, uint32_t entry, const R& r, logging::Level = logging::Level::Info) { vp_construct(alpha, entry, r.data(), r.size()); }
    void construct(float alpha, uint32_t entry, logging::Level = logging::Level::Info) { vp_construct(alpha, entry, nullptr, 0); }
};
namespace extensions {
template <class P> size_t svs_invoke(svs::tag_t<compute_entry_point>, const Vecs&, threads::NativeThreadPool&, P&& valid) {
    size_t x = vp_entry();
    vp_entry_ok(valid(x));
    return x;
}
}
}
#include "svs/index/vamana/dynamic_index.h"
using namespace svs;
using namespace svs::index::vamana;
using M = MutableVamanaIndex<Graph, Vecs, Dist>;
using P = VamanaBuildParameters;
extern "C" {
bool vp_is_deleted(const M& m, size_t i) { return m.is_deleted(i); }
void vp_delete_entry(M& m, size_t i) { m.delete_entry(i); }
bool vp_builder_valid(const std::vector<SlotMetadata>& s, uint32_t i, float d) { return ValidBuilder(s)(i, d).valid(); }
std::vector<uint32_t> vp_nonmissing(const M& m) { return m.nonmissing_indices(); }
std::vector<size_t> vp_add_points(M& m, const Vecs& p, const std::vector<size_t>& ids) { return m.add_points(p, ids); }
void vp_delete_entries(M& m, const std::vector<size_t>& ids) { m.delete_entries(ids); }
void vp_consolidate_index(M& m) { m.consolidate(); }
void vp_compact(M& m, uint32_t batch) { m.compact(batch); }
void vp_translate(M& m, MatrixView<size_t>& ids) { m.translate_to_external(ids); }
}
VP_CONST(m_sizeof, sizeof(M))
VP_OFFSET(m_graph, M, graph_)
VP_OFFSET(m_data, M, data_)
VP_OFFSET(m_entry, M, entry_point_)
VP_OFFSET(m_status, M, status_)
VP_OFFSET(m_tr, M, translator_)
VP_OFFSET(m_cws, M, construction_window_size_)
VP_OFFSET(m_maxc, M, max_candidates_)
VP_OFFSET(m_prune, M, prune_to_)
VP_OFFSET(m_alpha, M, alpha_)
VP_OFFSET(m_hist, M, use_full_search_history_)
VP_OFFSET(p_alpha, P, alpha)
VP_OFFSET(p_deg, P, graph_max_degree)
VP_OFFSET(p_win, P, window_size)
VP_OFFSET(p_pool, P, max_candidate_pool_size)
VP_OFFSET(p_prune, P, prune_to)
VP_OFFSET(p_hist, P, use_full_search_history)
