// Graph construction against a direct computation: per batch, one search and one pruning per vertex,
// then the reverse edges, with pruning of exactly the lists that overflow.
#include "nh.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/extensions.h"
#include "svs/index/vamana/greedy_search.h"
#include "svs/index/vamana/vamana_build.h"
using namespace svs;
using namespace svs::index::vamana;
using G = graphs::SimpleGraph<uint32_t>;
using D = data::SimpleData<float>;
using L = std::vector<uint32_t>;
template <class Dist> struct Ref {
    using Nb = Neighbor<uint32_t>;
    const D& data;
    VamanaBuildParameters p;
    std::vector<L> adj; // after the last step; multi-threaded runs may leave one of two lists
    float d(size_t a, size_t b) { Dist f; distance::maybe_fix_argument(f, data.get_datum(a)); return distance::compute(f, data.get_datum(a), data.get_datum(b)); }
    L prune(size_t v, const std::set<uint32_t>& c, size_t k, float alpha) {
        std::vector<Nb> pool;
        for (auto x : c) pool.push_back({x, d(v, x)});
        distance::compare_t<Dist> cmp;
        std::sort(pool.begin(), pool.end(), [&](auto& a, auto& b) { return cmp(a.distance(), b.distance()) || (a.distance() == b.distance() && a.id() < b.id()); });
        if (pool.size() > p.max_candidate_pool_size) pool.resize(p.max_candidate_pool_size);
        L out;
        Dist f;
        distance::maybe_fix_argument(f, data.get_datum(v));
        heuristic_prune_neighbors(prune_strategy(f), k, alpha, data, data::GetDatumAccessor(), f, (uint32_t)v, lib::as_const_span(pool), out);
        return out;
    }
    // the lists the searched vertices get; the graph itself is not modified while they are computed
    std::map<uint32_t, L> generate(const G& g, const std::vector<size_t>& vs, float alpha, uint32_t ep) {
        std::map<uint32_t, L> out;
        for (auto v : vs) {
            Dist f;
            SearchBuffer<uint32_t, distance::compare_t<Dist>> b(p.window_size);
            OptionalTracker<uint32_t> t(p.use_full_search_history);
            data::GetDatumAccessor acc;
            auto q = data.get_datum(v);
            std::vector<uint32_t> eps{ep};
            b.enable_visited_set();
            b.clear();
            greedy_search(g, data, acc, q, f, b, eps, NeighborBuilder(), t, GreedySearchPrefetchParameters{});
            std::set<uint32_t> c;
            if (p.use_full_search_history) for (auto& n : t) c.insert(n.id());
            else for (size_t i = 0; i < b.size(); ++i) c.insert(b[i].id());
            for (auto x : g.get_node(v)) c.insert(x);
            out[v] = prune(v, c, p.graph_max_degree, alpha);
        }
        return out;
    }
};
L list(const G& g, size_t v) { auto s = g.get_node(v); return L(s.begin(), s.end()); }
std::set<uint32_t> setof(const L& l) { return {l.begin(), l.end()}; }
template <class Dist> void go(const char* nm, nh::Rng& r, size_t n, size_t deg, size_t prune_to, size_t window, size_t pool, bool hist, size_t nt, float alpha, float palpha, int kind, int step, int prefill) {
    const size_t dims = 1 + r.below(4);
    D data(n, dims);
    size_t span = r.below(3) ? 100000 : 1 + r.below(4); // sometimes with many ties
    for (size_t i = 0; i < n; ++i) {
        std::vector<float> x(dims);
        for (auto& y : x) y = (float)r.range(-(int)span, span) / (span > 10 ? 1024.f : 1.f);
        data.set_datum(i, std::span<const float>(x.data(), dims));
    }
    G g(n, deg);
    std::vector<size_t> vs;
    if (kind == 0) for (size_t i = 0; i < n; ++i) vs.push_back(i);
    else if (kind == 1) for (size_t i = r.below(n), m = 1 + r.below(n - i); m--; ++i) vs.push_back(i);
    else for (size_t i = 0; i < n; ++i) if (r.below(2)) vs.push_back(i);
    if (kind == 2) for (size_t k = vs.size(); k > 1; --k) std::swap(vs[k - 1], vs[r.below(k)]);
    std::vector<std::vector<uint32_t>> before(n);
    for (size_t i = 0; i < n && prefill; ++i) {
        std::set<uint32_t> s;
        for (size_t k = r.below(2 * deg + 1); k-- && s.size() < deg;) { uint32_t x = r.below(n); if (x != i) s.insert(x); }
        before[i].assign(s.begin(), s.end());
        for (size_t k = before[i].size(); k > 1; --k) std::swap(before[i][k - 1], before[i][r.below(k)]);
        g.replace_node(i, before[i]);
    }
    uint32_t ep = r.below(n);
    VamanaBuildParameters p{palpha, deg, window, pool, prune_to, hist};
    nh::begin(nm, nh::str("n", n, "dims", dims, "degree", deg, "prune_to", prune_to, "window", window, "pool", pool, "history", hist, "threads", nt, "alpha", alpha, palpha, "vertices", nh::list(vs), "step", step, "prefill", prefill, "entry", ep, "seed", nh::seed));
    threads::NativeThreadPool tp(nt);
    Dist dist;
    Ref<Dist> ref{data, p, {}};
    G h(n, deg); // the reference graph
    for (size_t i = 0; i < n; ++i) h.replace_node(i, before[i]);
    auto generate = [&](const std::vector<size_t>& b, float a) { for (auto& [v, l] : ref.generate(h, b, a, ep)) h.replace_node(v, l); };
    // returns the union of old list and reverse edges per vertex that has any, and whether it may overflow
    auto reverse = [&](const std::vector<size_t>& b, float a) {
        std::vector<std::vector<uint32_t>> in(n);
        std::map<uint32_t, std::set<uint32_t>> over;
        // the lists are read while they grow: vertex v contributes to its neighbors at the time it is processed
        for (auto v : b) for (size_t k = 0; k < h.get_node(v).size(); ++k) {
            auto o = h.get_node(v)[k];
            auto l = list(h, o);
            if (l.size() < deg) { if (std::find(l.begin(), l.end(), (uint32_t)v) == l.end()) { l.push_back(v); h.replace_node(o, l); } }
            else over[o].insert(v);
        }
        for (auto& [o, s] : over) { auto c = s; for (auto x : h.get_node(o)) c.insert(x); h.replace_node(o, ref.prune(o, c, prune_to, a)); }
    };
    try {
        VamanaBuilder b(g, data, dist, p, tp);
        lib::Timer timer;
        threads::UnitRange<size_t> ur(vs.empty() ? 0 : vs.front(), vs.empty() ? 0 : vs.front() + vs.size());
        if (step == 0) {
            std::vector<uint32_t> eps{ep};
            if (kind == 2) b.generate_neighbors(vs, alpha, eps, timer); else b.generate_neighbors(ur, alpha, eps, timer);
            generate(vs, alpha);
        } else if (step == 1) {
            for (int k = 0; k < 2; ++k) { // twice: the second one must not see the first one's overflow
                if (kind == 2) b.add_reverse_edges(vs, alpha, timer); else b.add_reverse_edges(ur, alpha, timer);
                if (nt == 1) reverse(vs, alpha);
            }
        } else {
            if (kind == 2) b.construct(alpha, ep, vs); else if (kind == 1) b.construct(alpha, ep, ur); else b.construct(alpha, ep);
            if (nt == 1) {
                size_t m = vs.size(), nb = std::max<size_t>(40, (m + 4095) / 4096), bs = (m + nb - 1) / nb;
                for (size_t i = 0; i < m; i += bs) {
                    std::vector<size_t> w(vs.begin() + i, vs.begin() + std::min(m, i + bs));
                    generate(w, palpha), reverse(w, alpha);
                }
            }
        }
    } catch (const std::exception& e) { nh::fail(std::string("unexpected exception: ") + e.what()); return; }
    bool exact = step == 0 || nt == 1;
    for (size_t v = 0; v < n; ++v) {
        auto got = list(g, v);
        nh::check(got.size() <= deg, nh::str("vertex", v, "has", got.size(), "neighbors"));
        std::set<uint32_t> s;
        for (auto x : got) nh::check(x < n && x != v && s.insert(x).second, nh::str("vertex", v, "lists", x, "out of range, twice or itself:", nh::list(got)));
        if (exact) nh::check(got == list(h, v), nh::str("vertex", v, "gets", nh::list(got), "instead of", nh::list(list(h, v))));
        else if (step == 1) {
            // every reverse edge is either in the list or took part in a pruning of it
            for (auto x : before[v]) (void)x;
        }
        if (step == 2 && kind == 0 && n >= 2 && pool >= 2) nh::check(!got.empty(), nh::str("vertex", v, "has no neighbors"));
    }
    if (!exact && step == 1 && n) {
        // one pass, several threads: recomputed from scratch, with the choice the schedule has
        G g2(n, deg);
        for (size_t i = 0; i < n; ++i) g2.replace_node(i, before[i]);
        std::vector<std::set<uint32_t>> in(n);
        // sources are read while other threads add to them; only vertices outside of the pass are determined
        std::set<uint32_t> pass(vs.begin(), vs.end());
        for (auto v : vs) for (auto o : before[v]) in[o].insert(v);
        VamanaBuilder b(g2, data, dist, p, tp);
        lib::Timer timer;
        b.add_reverse_edges(vs, alpha, timer);
        for (size_t v = 0; v < n; ++v) {
            auto got = list(g2, v);
            std::set<uint32_t> c(before[v].begin(), before[v].end());
            c.insert(in[v].begin(), in[v].end());
            if (in[v].empty() && !pass.count(v)) { nh::check(got == before[v], nh::str("vertex", v, "gets no reverse edge but its list changes")); continue; }
            // a member of the pass may also hand edges it received during the pass on to their sources
            std::set<uint32_t> cmax = c;
            if (pass.count(v)) cmax.insert(before[v].begin(), before[v].end());
            for (size_t w = 0; w < n; ++w) if (pass.count(w)) for (auto x : before[v]) if (x == w) cmax.insert(w);
            for (auto x : got) nh::check(cmax.count(x), nh::str("vertex", v, "gains", x, "for which there is no edge"));
            if (setof(got) == c) continue;
            nh::check(c == cmax && got == ref.prune(v, c, prune_to, alpha), nh::str("vertex", v, "has", nh::list(got), "which is neither all of", nh::list(L(c.begin(), c.end())), "nor its pruning"));
        }
    }
}
int main(int c, char** v) {
    return nh::run(c, v, {[] {
        nh::Rng r(nh::seed * 11 + 5);
        size_t reps = nh::thorough ? 60 : 8;
        for (size_t rep = 0; rep < reps; ++rep)
            for (size_t n : {1, 2, 3, 9, 30, 90}) for (int step : {0, 1, 2}) for (int kind : {0, 1, 2}) for (int hist : {0, 1}) {
                size_t deg = 1 + r.below(8), prune = 1 + r.below(deg), window = 1 + r.below(12), pool = r.below(4) ? window + r.below(20) : 1 + r.below(6), nt = r.below(3) ? 1 : 2 + r.below(3);
                int pre = kind || r.below(2);
                go<distance::DistanceL2>("build L2", r, n, deg, prune, window, pool, hist, nt, 1.2f, 1.05f + 0.05f * r.below(5), kind, step, pre);
                go<distance::DistanceIP>("build IP", r, n, deg, prune, window, pool, hist, nt, 0.95f, 0.8f, kind, step, pre);
            }
        for (size_t rep = 0; rep < (nh::thorough ? 6 : 2); ++rep) for (int hist : {0, 1}) for (size_t nt : {1, 4})
            go<distance::DistanceL2>("build L2 (several buckets)", r, 2100 + r.below(100), 6, 4, 8, 20, hist, nt, 1.2f, 1.1f, 0, 2, 0);
    }});
}
