// Graph consolidation (index/vamana/consolidate.h) over an abstract graph, dataset, distance and
// deletion predicate.
#include "common.h"
#include "svs/core/data/simple.h"
#include "svs/index/vamana/prune.h"
#include "svs/lib/neighbor.h"
extern "C" {
float vp_dist(size_t a, size_t b) noexcept;
void vp_fix(size_t a) noexcept;
bool vp_deleted(size_t i) noexcept;
const uint32_t* vp_adj(const void* g, uint32_t i) noexcept;
size_t vp_deg(const void* g, uint32_t i) noexcept;
void vp_replace(void* g, uint32_t i, const uint32_t* p, size_t n);
}
struct Vec { size_t i; };
struct Vecs {
    using value_type = Vec;
    using const_value_type = Vec;
    size_t n;
    size_t size() const { return n; }
    size_t dimensions() const { return 1; }
    Vec get_datum(size_t i) const { return Vec{i}; }
    void prefetch(size_t) const {}
};
struct Dist {
    using compare = std::less<>;
    static constexpr bool must_fix_argument = true;
    void fix_argument(const Vec& a) { vp_fix(a.i); }
    float compute(const Vec& a, const Vec& b) const { return vp_dist(a.i, b.i); }
};
inline float compute(Dist& d, const Vec& a, const Vec& b) { return d.compute(a, b); }
namespace svs::index::vamana { template <> struct PruneStrategy<Dist> { using type = LegacyPruneStrategy; }; }
struct Graph {
    using index_type = uint32_t;
    using value_type = std::span<uint32_t>;
    using const_value_type = std::span<const uint32_t>;
    using reference = std::span<uint32_t>;
    using const_reference = std::span<const uint32_t>;
    size_t n;
    size_t max_degree() const { return 64; }
    size_t n_nodes() const { return n; }
    std::span<const uint32_t> get_node(uint32_t i) const { return {vp_adj(this, i), vp_deg(this, i)}; }
    size_t get_node_degree(uint32_t i) const { return vp_deg(this, i); }
    void prefetch_node(uint32_t) const {}
    size_t add_edge(uint32_t, uint32_t) { return 0; }
    void clear_node(uint32_t) {}
    void replace_node(uint32_t i, const std::vector<uint32_t>& v) { vp_replace(this, i, v.data(), v.size()); }
    void replace_node(uint32_t i, std::span<const uint32_t> v) { vp_replace(this, i, v.data(), v.size()); }
};
#include "svs/index/vamana/consolidate.h"
using namespace svs;
using namespace svs::index::vamana;
struct Del { bool operator()(size_t i) const { return vp_deleted(i); } };
using GC = GraphConsolidator<Graph, Vecs, threads::SequentialThreadPool, Dist>;
using TLS = ConsolidateThreadLocal<uint32_t>;
using N = Neighbor<uint32_t>;
using R = threads::UnitRange<size_t>;
VP_CONST(n_sizeof, sizeof(N))
VP_OFFSET(n_id, N, id_)
VP_OFFSET(n_dist, N, distance_)
VP_CONST(gc_sizeof, sizeof(GC))
VP_OFFSET(gc_params, GC, params_)
VP_CONST(p_sizeof, sizeof(ConsolidationParameters))
VP_OFFSET(p_batch, ConsolidationParameters, update_batch_size)
VP_OFFSET(p_prune, ConsolidationParameters, prune_to)
VP_OFFSET(p_pool, ConsolidationParameters, max_candidate_pool_size)
VP_OFFSET(p_alpha, ConsolidationParameters, alpha)
VP_CONST(tls_sizeof, sizeof(TLS))
VP_OFFSET(tls_all, TLS, all_candidates)
VP_OFFSET(tls_valid, TLS, valid_candidates)
VP_OFFSET(tls_final, TLS, final_candidates)
VP_CONST(bu_sizeof, sizeof(BulkUpdate<uint32_t>))
extern "C" {
// the consolidator's members are references: build it from its parts
void vp_populate(Graph& g, const Vecs& v, TLS& t, const std::span<const uint32_t>& nb) {
    threads::SequentialThreadPool p; Dist d; GC c{g, v, p, d, ConsolidationParameters{1, 1, 1, 1.0f}};
    c.populate_candidates(t.all_candidates, nb, Del{});
}
void vp_filter(Graph& g, const Vecs& v, TLS& t, size_t src) {
    threads::SequentialThreadPool p; Dist d; GC c{g, v, p, d, ConsolidationParameters{1, 1, 1, 1.0f}};
    auto a = data::GetDatumAccessor();
    c.filter_candidates(t.valid_candidates, t.all_candidates, Vec{src}, a, d, Del{});
}
void vp_generate(Graph& g, const Vecs& v, const ConsolidationParameters& ps, const R& gl, const R& lo, BulkUpdate<uint32_t>& b, TLS& t) {
    threads::SequentialThreadPool p; Dist d; GC c{g, v, p, d, ps};
    c.generate_updates(gl, lo, b, t, Del{});
}
void vp_apply(Graph& g, const Vecs& v, const R& gl, const R& lo, BulkUpdate<uint32_t>& b) {
    threads::SequentialThreadPool p; Dist d; GC c{g, v, p, d, ConsolidationParameters{1, 1, 1, 1.0f}};
    c.apply_updates(b, gl, lo);
}
void vp_run(Graph& g, const Vecs& v, const ConsolidationParameters& ps) {
    threads::SequentialThreadPool p; Dist d; GC c{g, v, p, d, ps};
    c(Del{});
}
void vp_cons(Graph& g, const Vecs& v, size_t prune_to, size_t pool, float alpha) {
    threads::SequentialThreadPool p; Dist d;
    consolidate(g, v, p, prune_to, pool, alpha, d, Del{});
}
void vp_binsert(BulkUpdate<uint32_t>& b, size_t i, const std::vector<uint32_t>& v) { b.insert(i, v); }
bool vp_bneeds(const BulkUpdate<uint32_t>& b, size_t i) { return b.needs_update(i); }
void vp_bget(const BulkUpdate<uint32_t>& b, size_t i, std::span<const uint32_t>* o) { *o = b.get_update(i); }
void vp_bprepare(BulkUpdate<uint32_t>& b) { b.prepare(); }
}
using BU = BulkUpdate<uint32_t>;
constexpr size_t oN = __builtin_offsetof(BU, neighbors_), oL = __builtin_offsetof(BU, lengths_), oU = __builtin_offsetof(BU, needs_update_);
using MU = decltype(BU::neighbors_);
using VL = decltype(BU::lengths_);
using VU = decltype(BU::needs_update_);
VP_CONST(bu_nb, oN + __builtin_offsetof(MU, pointer_))
VP_CONST(bu_rows, oN + __builtin_offsetof(MU, dims_) + 8)
VP_CONST(bu_cols, oN + __builtin_offsetof(MU, dims_))
VP_CONST(bu_len, oL + __builtin_offsetof(VL, pointer_))
VP_CONST(bu_lenn, oL + __builtin_offsetof(VL, dims_))
VP_CONST(bu_needs, oU + __builtin_offsetof(VU, pointer_))
VP_CONST(bu_needsn, oU + __builtin_offsetof(VU, dims_))
