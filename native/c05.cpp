#include <cmath>
// heuristic_prune_neighbors: the three strategies against independent statements of their rule.
#include "nh.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/index/vamana/prune.h"
using namespace svs;
using namespace svs::index::vamana;
struct Vec { size_t i; };
struct Tab {  // distance table
    using value_type = Vec;
    using const_value_type = Vec;
    size_t n;
    size_t size() const { return n; }
    size_t dimensions() const { return 1; }
    Vec get_datum(size_t i) const { return Vec{i}; }
    void prefetch(size_t) const {}
};
template <typename C> struct Dist {
    using compare = C;
    static constexpr bool must_fix_argument = true;
    const std::vector<std::vector<float>>* t;
    long fixed = -1;
    void fix_argument(const Vec& a) { fixed = a.i; }
    float compute(const Vec& a, const Vec& b) const {
        if (fixed != (long)a.i) nh::fail("distance computed for an argument that was not fixed");
        return (*t)[a.i][b.i];
    }
};
template <typename C> float compute(Dist<C>& d, const Vec& a, const Vec& b) { return d.compute(a, b); }
using N = Neighbor<uint32_t>;
template <typename C> using Ref = std::vector<uint32_t>(size_t, float, const std::vector<std::vector<float>>&, size_t, const std::vector<N>&);
// a candidate is kept iff no kept one (earlier in the pool) occludes it
template <typename C> std::vector<uint32_t> ref(LegacyPruneStrategy, size_t mx, float alpha, const std::vector<std::vector<float>>& t, size_t self, const std::vector<N>& p) {
    C cmp;
    std::vector<uint32_t> out;
    for (auto& c : p) {
        if (out.size() >= mx) break;
        if (c.id() == self) continue;
        bool occ = false;
        for (auto k : out) occ |= cmp(alpha * t[k][c.id()], c.distance());
        if (!occ) out.push_back(c.id());
    }
    return out;
}
// rounds with alpha 1, a, a^2, ... not beyond a; in each round only what that round selects occludes
template <typename C> std::vector<uint32_t> ref(IterativePruneStrategy, size_t mx, float alpha, const std::vector<std::vector<float>>& t, size_t self, const std::vector<N>& p) {
    C cmp;
    std::vector<uint32_t> out;
    std::vector<char> used(p.size());
    for (float a = 1.0f; out.size() < mx && !cmp(alpha, a); a *= alpha) {
        std::vector<uint32_t> now;
        for (size_t i = 0; i < p.size() && out.size() < mx; ++i) {
            if (used[i] || p[i].id() == self) continue;
            bool occ = false;
            for (auto k : now) occ |= cmp(a * t[k][p[i].id()], p[i].distance());
            if (occ) continue;
            used[i] = 1;
            now.push_back(p[i].id());
            out.push_back(p[i].id());
        }
        if (alpha == 1) break;
    }
    return out;
}
// each candidate carries the worst ratio distance / d(kept, candidate) seen while it was open
template <typename C> std::vector<uint32_t> ref(ProgressivePruneStrategy, size_t mx, float alpha, const std::vector<std::vector<float>>& t, size_t self, const std::vector<N>& p) {
    C cmp;
    std::vector<uint32_t> out;
    std::vector<char> used(p.size()), any(p.size());
    std::vector<float> ratio(p.size());
    for (float a = 1.0f; out.size() < mx && !cmp(alpha, a); a *= alpha) {
        for (size_t i = 0; i < p.size() && out.size() < mx; ++i) {
            if (used[i] || p[i].id() == self || (any[i] && cmp(a, ratio[i]))) continue;
            used[i] = 1;
            out.push_back(p[i].id());
            for (size_t j = i + 1; j < p.size(); ++j) {
                if (used[j] || (any[j] && cmp(a, ratio[j]))) continue;
                float r = p[j].distance() / t[p[i].id()][p[j].id()];
                if (std::isnan(r)) continue;  // 0/0 says nothing
                ratio[j] = any[j] ? (cmp(ratio[j], r) ? r : ratio[j]) : r;
                any[j] = 1;
            }
        }
        if (alpha == 1) break;
    }
    return out;
}
template <typename S, typename C, typename I> void one(const char* nm, size_t mx, float alpha, const std::vector<std::vector<float>>& t, size_t self, const std::vector<N>& p) {
    std::string d = nh::str("max", mx, "alpha", alpha, "self", self, "pool");
    for (auto& c : p) d += nh::str(c.id(), ":", c.distance());
    d += " d=";
    if (t.size() <= 6) for (auto& r : t) d += nh::list(r);
    nh::begin(nm, d);
    Dist<C> f{&t};
    std::vector<I> out;
    for (int i = 0; i < 3; ++i) {
        if constexpr (std::is_integral_v<I>) out.push_back(77 + i);
        else out.push_back(I(77 + i, 0));
    }
    Tab tab{t.size()};
    heuristic_prune_neighbors(S{}, mx, alpha, tab, data::GetDatumAccessor(), f, self, std::span<const N>(p.data(), p.size()), out);
    auto e = ref<C>(S{}, mx, alpha, t, self, p);
    bool same = out.size() == e.size();
    for (size_t i = 0; same && i < e.size(); ++i) {
        if constexpr (std::is_integral_v<I>) same = out[i] == e[i];
        else same = out[i].id() == e[i];
    }
    if constexpr (!std::is_integral_v<I>)
        for (auto& o : out) for (auto& c : p) if (c.id() == o.id()) nh::check(c.distance() == o.distance(), "the distance of a selected neighbor is kept");
    std::vector<uint32_t> o;
    for (auto& x : out) if constexpr (std::is_integral_v<I>) o.push_back(x); else o.push_back(x.id());
    nh::check(same, nh::str("selected", nh::list(o), "expected", nh::list(e)));
    nh::check(o.size() <= mx, "more neighbors than allowed");
    nh::check(std::set<uint32_t>(o.begin(), o.end()).size() == o.size(), "neighbor selected twice");
    for (auto x : o) nh::check(x != self && std::any_of(p.begin(), p.end(), [&](auto& c) { return c.id() == x; }), "selected neighbor is the vertex itself or not a candidate");
    if (!p.empty() && mx > 0 && !C()(alpha, 1.0f)) {
        auto it = std::find_if(p.begin(), p.end(), [&](auto& c) { return c.id() != self; });
        if (it != p.end()) nh::check(!o.empty() && o[0] == it->id(), "the nearest candidate is not selected first");
    }
}
template <typename C> void episodes(const char* nm) {
    nh::Rng r(nh::seed * 3 + (nm[0] == 'l'));
    bool less = C()(1, 2);
    const float alphas[] = {1.0f, 1.2f, 1.1f, 1.5f, 2.0f, 0.95f, 0.9f, 0.5f, 1.05f};
    for (int ep = 0; ep < (nh::thorough ? 30000 : 4000); ++ep) {
        size_t m = 1 + r.below(ep < 1500 ? 6 : 24), n = r.below(m + 1);
        int grid = 2 + r.below(12);
        std::vector<std::vector<float>> t(m, std::vector<float>(m));
        int low = r.below(2);  // duplicates are at distance 0
        for (auto& a : t) for (auto& x : a) x = (low + r.below(grid)) * 0.5f * (less || r.below(4) ? 1 : -1);
        std::vector<uint32_t> ids(m);
        std::iota(ids.begin(), ids.end(), 0);
        for (size_t i = m; i > 1; --i) std::swap(ids[i - 1], ids[r.below(i)]);
        std::vector<N> p;
        for (size_t i = 0; i < n; ++i) p.emplace_back(ids[i], (low + r.below(grid)) * 0.5f * (less || r.below(4) ? 1 : -1));
        std::stable_sort(p.begin(), p.end(), C());
        size_t self = r.below(3) ? (n ? p[r.below(n)].id() : 0) : 1000;
        size_t mx = r.below(4) ? r.below(n + 2) : 32;
        float alpha = alphas[r.below(9)];
        if (!less && alpha > 1) alpha = 1 / alpha;
        if (less && alpha < 1) alpha = 1 / alpha;
        if (r.below(20) == 0) alpha = 1 / alpha;  // wrong side: no or all rounds
        std::string s = nm;
        bool diverges = less ? alpha < 1 : alpha > 1;
        one<LegacyPruneStrategy, C, uint32_t>((s + "legacy").c_str(), mx, alpha, t, self, p);
        if (diverges && false) continue;
        one<IterativePruneStrategy, C, uint32_t>((s + "iterative").c_str(), mx, alpha, t, self, p);
        one<ProgressivePruneStrategy, C, uint32_t>((s + "progressive").c_str(), mx, alpha, t, self, p);
        if (r.below(4) == 0) {
            one<IterativePruneStrategy, C, N>((s + "iterative_neighbors").c_str(), mx, alpha, t, self, p);
            one<ProgressivePruneStrategy, C, N>((s + "progressive_neighbors").c_str(), mx, alpha, t, self, p);
            one<LegacyPruneStrategy, C, SearchNeighbor<uint32_t>>((s + "legacy_neighbors").c_str(), mx, alpha, t, self, p);
        }
    }
}
// real vectors: the strategy a distance selects
template <typename D, typename S> void real(const char* nm) {
    static_assert(std::is_same_v<prune_strategy_t<D>, S>);
    nh::Rng r(nh::seed + 5);
    for (int ep = 0; ep < 150; ++ep) {
        size_t n = 2 + r.below(20), dim = 1 + r.below(6);
        data::SimpleData<float> v(n, dim);
        std::vector<float> x(dim);
        for (size_t i = 0; i < n; ++i) { for (auto& y : x) y = r.f() + 0.125f; v.set_datum(i, x); }
        std::vector<std::vector<float>> t(n, std::vector<float>(n));
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { D d; distance::maybe_fix_argument(d, v.get_datum(i)); t[i][j] = distance::compute(d, v.get_datum(i), v.get_datum(j)); }
        size_t self = r.below(n), mx = 1 + r.below(n);
        std::vector<N> p;
        using C = distance::compare_t<D>;
        for (size_t i = 0; i < n; ++i) if (r.below(4)) p.emplace_back(i, t[self][i]);
        std::stable_sort(p.begin(), p.end(), C());
        float alpha = C()(1, 2) ? 1.2f : 0.95f;
        nh::begin(nm, nh::str("vectors", n, "dim", dim, "episode", ep, "self", self, "max", mx));
        std::vector<uint32_t> out;
        D d;
        heuristic_prune_neighbors(prune_strategy(d), mx, alpha, v, data::GetDatumAccessor(), d, self, lib::as_const_span(p), out);
        auto e = ref<C>(S{}, mx, alpha, t, self, p);
        nh::check(out == e, nh::str("selected", nh::list(out), "expected", nh::list(e)));
    }
}
int main(int argc, char** argv) {
    return nh::run(argc, argv, {[] { episodes<std::less<>>("l2_"); }, [] { episodes<std::greater<>>("ip_"); }, [] { real<distance::DistanceL2, ProgressivePruneStrategy>("real_l2"); },
        [] { real<distance::DistanceIP, IterativePruneStrategy>("real_ip"); }, [] { real<distance::DistanceCosineSimilarity, IterativePruneStrategy>("real_cosine"); }});
}
