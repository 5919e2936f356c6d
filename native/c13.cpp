// Consolidation of a graph against a direct computation of its specification.
#include "nh.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/consolidate.h"
using namespace svs;
using namespace svs::index::vamana;
template <class D> void go(const char* nm, nh::Rng& r, size_t n, size_t deg, size_t prune_to, size_t pool, size_t batch, size_t nt, unsigned delpct, float alpha, bool shuffled) {
    const size_t dims = 3;
    auto data = data::SimpleData<float>(n, dims);
    std::vector<std::vector<float>> X(n, std::vector<float>(dims));
    for (size_t i = 0; i < n; ++i) { for (auto& x : X[i]) x = (float)r.range(-100000, 100000) / 1024.f; data.set_datum(i, std::span<const float>(X[i].data(), dims)); }
    auto graph = graphs::SimpleGraph<uint32_t>(n, deg);
    std::vector<std::vector<uint32_t>> adj(n);
    std::vector<char> del(n);
    for (auto& d : del) d = r.below(100) < delpct;
    for (size_t i = 0; i < n; ++i) {
        std::set<uint32_t> s;
        size_t want = r.below(deg + 1);
        for (size_t k = 0; k < 3 * want && s.size() < want; ++k) { uint32_t x = r.below(n); if (x != i) s.insert(x); }
        adj[i].assign(s.begin(), s.end());
        if (shuffled) for (size_t k = adj[i].size(); k > 1; --k) std::swap(adj[i][k - 1], adj[i][r.below(k)]);
        graph.replace_node(i, adj[i]);
    }
    nh::begin(nm, nh::str("n", n, "degree", deg, "prune_to", prune_to, "pool", pool, "batch", batch, "threads", nt, "alpha", alpha, "deleted", nh::list(del), "seed", nh::seed));
    D dist;
    auto is_deleted = [&](size_t i) { return (bool)del[i]; };
    threads::NativeThreadPool p(nt);
    try {
        if (batch == 0) consolidate(graph, data, p, prune_to, pool, alpha, dist, is_deleted);
        else { ConsolidationParameters ps{batch, prune_to, pool, alpha}; auto c = GraphConsolidator{graph, data, p, dist, ps}; c(is_deleted); }
    } catch (const std::exception& e) { nh::fail(std::string("unexpected exception: ") + e.what()); return; }
    distance::compare_t<D> cmp;
    for (size_t v = 0; v < n; ++v) {
        auto got = graph.get_node(v);
        std::vector<uint32_t> g(got.begin(), got.end());
        bool touched = !del[v] && std::any_of(adj[v].begin(), adj[v].end(), [&](uint32_t x) { return del[x]; });
        if (!touched) { nh::check(g == adj[v], nh::str("vertex", v, del[v] ? "is deleted" : "has no deleted neighbor", "but its list changed from", nh::list(adj[v]), "to", nh::list(g))); continue; }
        std::set<uint32_t> c;
        for (auto x : adj[v]) { if (del[x]) c.insert(adj[x].begin(), adj[x].end()); else c.insert(x); }
        std::vector<Neighbor<uint32_t>> cand;
        for (auto x : c) if (!del[x]) { D d2; distance::maybe_fix_argument(d2, data.get_datum(v)); cand.push_back({x, distance::compute(d2, data.get_datum(v), data.get_datum(x))}); }
        std::sort(cand.begin(), cand.end(), [&](auto& a, auto& b) { return cmp(a.distance(), b.distance()); });
        bool tie = false;
        for (size_t i = 1; i < cand.size(); ++i) tie |= cand[i].distance() == cand[i - 1].distance();
        nh::check(g.size() <= prune_to, nh::str("vertex", v, "keeps", g.size(), "neighbors, more than requested"));
        std::set<uint32_t> seen;
        for (auto x : g) {
            nh::check(x < n && !del[x], nh::str("vertex", v, "keeps the deleted neighbor", x));
            nh::check(x != v && seen.insert(x).second, nh::str("vertex", v, "lists", x, "twice or itself"));
            nh::check(c.count(x), nh::str("vertex", v, "gains", x, "which is no neighbor of it or of a deleted neighbor"));
        }
        if (cand.size() > pool) cand.resize(pool);
        std::vector<uint32_t> want;
        D d3;
        heuristic_prune_neighbors(prune_strategy(dist), prune_to, alpha, data, data::GetDatumAccessor(), d3, v, lib::as_const_span(cand), want);
        if (!tie) nh::check(g == want, nh::str("vertex", v, "gets", nh::list(g), "instead of", nh::list(want), "deleted", nh::list(del)));
    }
}
int main(int c, char** v) {
    return nh::run(c, v, {[] {
        nh::Rng r(nh::seed * 7 + 3);
        size_t reps = nh::thorough ? 25 : 4;
        for (size_t rep = 0; rep < reps; ++rep)
            for (size_t n : {1, 2, 3, 8, 20, 64}) for (size_t batch : {0, 1, 2, 7, 20, 63, 64, 1000}) for (unsigned pct : {0, 10, 30, 60, 100}) {
                size_t deg = 1 + r.below(12), prune = 1 + r.below(deg), pool = r.below(3) ? prune + r.below(40) : r.below(prune + 1), nt = 1 + r.below(4);
                go<distance::DistanceL2>("consolidate L2", r, n, deg, prune, pool, batch, nt, pct, 1.2f, true);
                go<distance::DistanceIP>("consolidate IP", r, n, deg, prune, pool, batch, nt, pct, 0.95f, r.below(2));
            }
        // several tickets per batch
        for (size_t rep = 0; rep < (nh::thorough ? 8 : 2); ++rep) for (size_t batch : {0, 499, 501, 700, 1501}) {
            go<distance::DistanceL2>("consolidate L2 (large)", r, 1500 + r.below(40), 8, 6, 20, batch, 1 + r.below(8), 20, 1.2f, true);
        }
    }});
}
