// Exhaustive search (index/flat): abstract dataset, distance and predicate.
#include "common.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/index/flat/flat.h"
using namespace svs;
using namespace svs::index::flat;
struct Vec { size_t i; };
extern "C" float vp_dist(const void* functor, const float* query, size_t datum);
extern "C" void vp_fix(const void* functor, const float* query);
extern "C" bool vp_pred(size_t datum);
struct Vecs {
    using value_type = Vec;
    using const_value_type = Vec;
    size_t n;
    size_t size() const { return n; }
    size_t dimensions() const { return 1; }
    Vec get_datum(size_t i) const { return Vec{i}; }
    void prefetch(size_t) const {}
};
template <typename C> struct Dist {
    using compare = C;
    static constexpr bool must_fix_argument = true;
    size_t state;
    void fix_argument(std::span<const float> q) { vp_fix(this, q.data()); }
    float compute(std::span<const float> q, const Vec& b) const { return vp_dist(this, q.data(), b.i); }
};
template <typename C> float compute(Dist<C>& d, std::span<const float> a, const Vec& b) { return d.compute(a, b); }
template <typename C> using Index = FlatIndex<Vecs, Dist<C>, ReferencesMembers>;
using Queries = data::ConstSimpleDataView<float>;
using N = Neighbor<size_t>;
struct Pred { bool operator()(size_t i) const { return vp_pred(i); } };
VP_OFFSET(n_id, N, id_)
VP_OFFSET(n_dist, N, distance_)
VP_CONST(n_sizeof, sizeof(N))
VP_CONST(ix_sizeof, sizeof(Index<std::less<>>))
extern "C" {
VP_OFFSET(ix_data, Index<std::less<>>, data_)
VP_OFFSET(ix_pool, Index<std::less<>>, threadpool_)
void vp_patch(Index<std::less<>>& ix, const Queries& q, const threads::UnitRange<size_t>& d, const threads::UnitRange<size_t>& r, BulkInserter<N, std::less<>>& s, distance::BroadcastDistance<Dist<std::less<>>>& f) { ix.search_patch(q, d, r, s, f, Pred{}); }
void vp_search(Index<std::less<>>& ix, QueryResultView<size_t>& res, const Queries& q, const FlatParameters& p) { ix.search(res, q, p, Pred{}); }
void vp_heap_lt(N* b, N* e, const N& x) { HeapInserter<N*, std::less<>>{b, e, {}}.insert(x); }
void vp_heap_gt(N* b, N* e, const N& x) { HeapInserter<N*, std::greater<>>{b, e, {}}.insert(x); }
void vp_prep_lt(N* b, N* e) { HeapInserter<N*, std::less<>>{b, e, {}}.prepare(); }
void vp_prep_gt(N* b, N* e) { HeapInserter<N*, std::greater<>>{b, e, {}}.prepare(); }
void vp_lin_lt(N* b, N* e, const N& x) { LinearInserter<N*, std::less<>>{b, e, {}}.insert(x); }
void vp_lin_gt(N* b, N* e, const N& x) { LinearInserter<N*, std::greater<>>{b, e, {}}.insert(x); }
void vp_bulk(BulkInserter<N, std::less<>>& s, size_t i, const N& x) { s.insert(i, x); }
}
