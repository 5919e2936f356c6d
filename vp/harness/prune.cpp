// heuristic_prune_neighbors over an abstract dataset (vector i is the handle i) and an abstract
// distance whose value is given by contract (vp_dist).
#include "common.h"
#include "svs/index/vamana/prune.h"
using namespace svs;
using namespace svs::index::vamana;
extern "C" {
float vp_dist(size_t a, size_t b) noexcept;
void vp_fix(size_t a) noexcept;
}
struct Vec { size_t i; };
struct Vecs {
    using value_type = Vec;
    using const_value_type = Vec;
    size_t n;
    size_t size() const { return n; }
    size_t dimensions() const { return 1; }
    Vec get_datum(size_t i) const { return Vec{i}; }
    void prefetch(size_t) const {}
};
template <typename C> struct Dist {
    using compare = C;
    static constexpr bool must_fix_argument = true;
    void fix_argument(const Vec& a) { vp_fix(a.i); }
    float compute(const Vec& a, const Vec& b) const { return vp_dist(a.i, b.i); }
};
template <typename C> float compute(Dist<C>& d, const Vec& a, const Vec& b) { return d.compute(a, b); }
using N = Neighbor<uint32_t>;
using R = std::vector<uint32_t>;
using RN = std::vector<N>;
VP_OFFSET(p_id, N, id_)
VP_OFFSET(p_dist, N, distance_)
VP_CONST(p_sizeof, sizeof(N))
#define P(name, S, C) void name(size_t mx, float alpha, const Vecs& v, size_t self, const N* p, size_t n, R& r) { Dist<C> d; heuristic_prune_neighbors(S{}, mx, alpha, v, data::GetDatumAccessor(), d, self, std::span<const N>(p, n), r); }
extern "C" {
P(vp_legacy_lt, LegacyPruneStrategy, std::less<>)
P(vp_legacy_gt, LegacyPruneStrategy, std::greater<>)
P(vp_iter_lt, IterativePruneStrategy, std::less<>)
P(vp_iter_gt, IterativePruneStrategy, std::greater<>)
P(vp_prog_lt, ProgressivePruneStrategy, std::less<>)
P(vp_prog_gt, ProgressivePruneStrategy, std::greater<>)
}
