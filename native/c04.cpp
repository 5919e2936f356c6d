// C04: graph search against an independent best-first search, and against brute force when the buffer holds everything.
#include "nh.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/greedy_search.h"
#include "svs/index/vamana/index.h"
using namespace svs;
using namespace svs::index::vamana;
using G = graphs::SimpleGraph<uint32_t>;
struct C { float d; uint32_t id; bool vis; };
template <class D> using Cmp = distance::compare_t<D>;
struct Trace { std::vector<std::pair<uint32_t, size_t>> v; };
// best-first search: keep the cap best ever offered, expand the best unexpanded one within the window
template <class D, class V, class Q> std::vector<C> ref(const G& g, const V& v, const Q& q, D d, const std::vector<uint32_t>& eps, size_t window, size_t cap, Trace* tr) {
    Cmp<D> cmp;
    distance::maybe_fix_argument(d, q);
    auto dist = [&](uint32_t i) { return distance::compute(d, q, v.get_datum(i)); };
    std::vector<C> b;
    auto put = [&](uint32_t i) {
        for (auto& c : b) if (c.id == i) return;
        b.push_back({dist(i), i, false});
        std::stable_sort(b.begin(), b.end(), [&](const C& x, const C& y) { return cmp(x.d, y.d); });
        if (b.size() > cap) b.pop_back();
    };
    for (auto e : eps) { if (b.size() < cap) { b.push_back({dist(e), e, false}); } if (tr) tr->v.push_back({e, 1}); }
    std::stable_sort(b.begin(), b.end(), [&](const C& x, const C& y) { return cmp(x.d, y.d); });
    while (true) {
        size_t i = 0;
        while (i < b.size() && i < window && b[i].vis) ++i;
        if (i >= b.size() || i >= window) break;
        b[i].vis = true;
        auto id = b[i].id;
        auto nb = g.get_node(id);
        if (tr) tr->v.push_back({id, nb.size()});
        for (auto x : nb) put(x);
    }
    return b;
}
struct Rec { Trace t; std::vector<float> ds; void visited(Neighbor<uint32_t> n, size_t c) { t.v.push_back({n.id(), c}); ds.push_back(n.distance()); } };
template <class T> data::SimpleData<T> vectors(nh::Rng& r, size_t n, size_t dim) {
    data::SimpleData<T> v(n, dim);
    std::vector<T> x(dim);
    for (size_t i = 0; i < n; ++i) {
        for (auto& y : x) y = std::is_integral_v<T> ? T(int(r.below(250)) - (std::is_signed_v<T> ? 125 : 0)) : T(r.f() * 4 - 2);
        v.set_datum(i, x);
    }
    return v;
}
static G graph(nh::Rng& r, size_t n, size_t deg, bool ring) {
    G g(n, deg);
    for (size_t i = 0; i < n; ++i) {
        std::vector<uint32_t> l;
        if (ring && n > 1) l.push_back((i + 1) % n);
        size_t k = r.below(deg + 1);
        while (l.size() < k) { uint32_t x = r.below(n); if (std::find(l.begin(), l.end(), x) == l.end()) l.push_back(x); else if (r.below(3) == 0) break; }
        for (size_t j = l.size(); j > 1; --j) std::swap(l[j - 1], l[r.below(j)]);
        g.replace_node(i, l);
    }
    return g;
}
static G copy(const G& g) {
    G h(g.n_nodes(), g.max_degree());
    for (size_t i = 0; i < g.n_nodes(); ++i) h.replace_node(i, std::vector<uint32_t>(g.get_node(i).begin(), g.get_node(i).end()));
    return h;
}
template <class T> data::SimpleData<T> copy(const data::SimpleData<T>& v) {
    data::SimpleData<T> w(v.size(), v.dimensions());
    for (size_t i = 0; i < v.size(); ++i) w.set_datum(i, v.get_datum(i));
    return w;
}
template <class D, class T, class Q> void direct(const char* nm) {
    nh::Rng r(nh::seed * 31 + nm[0] + sizeof(T));
    for (int ep = 0; ep < (nh::thorough ? 6000 : 700); ++ep) {
        size_t n = 1 + r.below(ep % 4 ? 24 : 120), dim = 8 + r.below(12), deg = 1 + r.below(std::min<size_t>(n, 12));
        auto v = vectors<T>(r, n, dim);
        auto qs = vectors<Q>(r, 2, dim);
        auto g = graph(r, n, deg, r.below(2));
        size_t window = 1 + r.below(n + 3), cap = window + (r.below(2) ? r.below(10) : 0);
        std::vector<uint32_t> eps;
        for (size_t i = 0, k = 1 + r.below(3); i < k; ++i) { uint32_t x = r.below(n); if (std::find(eps.begin(), eps.end(), x) == eps.end()) eps.push_back(x); }
        bool vis = r.below(2);
        GreedySearchPrefetchParameters pf{r.below(6), r.below(4)};
        D d, d2;
        SearchBuffer<uint32_t, Cmp<D>> buf(SearchBufferConfig(window, cap), Cmp<D>(), vis);
        for (int qi = 0; qi < 2; ++qi) {  // the buffer is reused for the second query
            nh::begin(nm, nh::str("episode", ep, "vertices", n, "dims", dim, "degree", deg, "window", window, "capacity", cap, "entries", nh::list(eps), "filter", vis, "prefetch", pf.lookahead, pf.step, "query", qi));
            auto q = qs.get_datum(qi);
            Rec rec;
            auto acc = data::GetDatumAccessor();
            greedy_search(g, v, acc, q, d, buf, eps, NeighborBuilder(), rec, pf);
            Trace tr;
            auto e = ref(g, v, q, d2, eps, window, cap, &tr);
            bool tie = false;
            for (size_t i = 0; i + 1 < e.size(); ++i) tie |= e[i].d == e[i + 1].d;
            if (tie) continue;  // order among equal distances: C01
            bool ok = buf.size() == e.size();
            for (size_t i = 0; ok && i < e.size(); ++i) ok = buf[i].id() == e[i].id && buf[i].distance() == e[i].d;
            std::string a, b;
            for (size_t i = 0; i < buf.size(); ++i) a += nh::str(buf[i].id(), "");
            for (auto& c : e) b += nh::str(c.id, "");
            nh::check(ok, "candidates " + a + "expected " + b);
            nh::check(rec.t.v == tr.v, "the visited vertices and distance counts told to the tracker differ");
            D d3;
            distance::maybe_fix_argument(d3, q);
            for (size_t i = 0; i < rec.ds.size(); ++i) nh::check(rec.ds[i] == distance::compute(d3, q, v.get_datum(rec.t.v[i].first)), "distance told to the tracker is not the vertex's");
        }
    }
}
template <class D, class T, class Q> void index_(const char* nm) {
    nh::Rng r(nh::seed * 37 + nm[0] + sizeof(T));
    for (int ep = 0; ep < (nh::thorough ? 800 : 120); ++ep) {
        size_t n = 2 + r.below(60), dim = 8 + r.below(8), deg = 2 + r.below(std::min<size_t>(n, 8)), nq = r.below(30), nt = 1 + r.below(5);
        bool all = r.below(3) == 0;
        auto v = vectors<T>(r, n, dim);
        auto qs = vectors<Q>(r, std::max<size_t>(nq, 1), dim);
        if (nq == 0) nq = 1;
        auto g = graph(r, n, deg, true);
        uint32_t e0 = r.below(n);
        size_t window = all ? n + r.below(5) : 1 + r.below(n), cap = window + r.below(6), k = 1 + r.below(std::min(all ? n : cap + 3, n));
        bool vis = r.below(2);
        std::string desc = nh::str("episode", ep, "vertices", n, "queries", nq, "threads", nt, "window", window, "capacity", cap, "k", k, "filter", vis, "entry", e0);
        nh::begin(nm, desc);
        VamanaIndex<G, data::SimpleData<T>, D> idx(copy(g), copy(v), e0, D(), nt);
        VamanaSearchParameters sp{SearchBufferConfig(window, cap), vis, r.below(5), r.below(3)};
        auto res = QueryResult<size_t>(nq, k);
        for (size_t i = 0; i < nq; ++i) for (size_t j = 0; j < k; ++j) res.index(i, j) = size_t(-1);
        idx.search(res.view(), qs.cview(), sp);
        size_t w2 = cap < k ? k : window, c2 = cap < k ? k : cap;
        for (size_t i = 0; i < nq; ++i) {
            auto q = qs.get_datum(i);
            auto e = ref(g, v, q, D(), {e0}, w2, c2, nullptr);
            if (all) {
                std::vector<C> bf;
                D d;
                distance::maybe_fix_argument(d, q);
                for (size_t x = 0; x < n; ++x) bf.push_back({distance::compute(d, q, v.get_datum(x)), uint32_t(x), false});
                std::stable_sort(bf.begin(), bf.end(), [](const C& a, const C& b) { return Cmp<D>()(a.d, b.d); });
                e = bf;
            }
            bool tie = false;
            for (size_t j = 0; j + 1 < e.size(); ++j) tie |= e[j].d == e[j + 1].d;
            if (tie) continue;
            for (size_t j = 0; j < std::min(k, e.size()); ++j)
                if (!nh::check(res.index(i, j) == e[j].id && res.distance(i, j) == e[j].d, nh::str("query", i, "result", j, "is", res.index(i, j), "at", res.distance(i, j), "expected", e[j].id, "at", e[j].d))) break;
        }
        // one query with caller-owned scratch space
        auto sc = idx.scratchspace(sp);
        idx.search(qs.get_datum(0), sc);
        auto e = ref(g, v, qs.get_datum(0), D(), {e0}, window, cap, nullptr);
        bool tie = false;
        for (size_t j = 0; j + 1 < e.size(); ++j) tie |= e[j].d == e[j + 1].d;
        if (!tie) {
            nh::check(sc.buffer.size() == e.size(), "number of candidates of a single search");
            for (size_t j = 0; j < std::min(e.size(), sc.buffer.size()); ++j) nh::check(sc.buffer[j].id() == e[j].id && sc.buffer[j].distance() == e[j].d, nh::str("candidate", j, "of a single search"));
        }
    }
}
// the loop prefetcher touches every wanted index exactly once if it is advanced often enough
static void prefetcher() {
    nh::Rng r(nh::seed);
    for (int ep = 0; ep < 3000; ++ep) {
        size_t n = r.below(20), la = r.below(8), st = r.below(5);
        std::vector<char> want(n);
        for (auto& w : want) w = r.below(4) != 0;
        nh::begin("prefetcher", nh::str("n", n, "lookahead", la, "step", st, "wanted", nh::list(want)));
        std::vector<size_t> got;
        bool bad = false;
        auto p = lib::make_prefetcher(lib::PrefetchParameters{la, st}, n, [&](size_t i) { bad |= i >= n; got.push_back(i); }, [&](size_t i) { bad |= i >= n; return i < n && want[i]; });
        for (size_t i = 0; i <= n + 2; ++i) p();
        nh::check(!bad, "index out of range");
        std::vector<size_t> e;
        if (la && st) for (size_t i = 0; i < n; ++i) if (want[i]) e.push_back(i);
        nh::check(got == e, "prefetched " + nh::list(got) + " expected " + nh::list(e));
    }
}
int main(int argc, char** argv) {
    return nh::run(argc, argv, {[] { direct<distance::DistanceL2, float, float>("search_l2"); }, [] { direct<distance::DistanceIP, float, float>("search_ip"); }, [] { direct<distance::DistanceCosineSimilarity, float, float>("search_cosine"); },
        [] { direct<distance::DistanceL2, int8_t, float>("search_i8"); }, [] { direct<distance::DistanceL2, Float16, float>("search_f16"); },
        [] { index_<distance::DistanceL2, float, float>("index_l2"); }, [] { index_<distance::DistanceIP, float, float>("index_ip"); }, [] { index_<distance::DistanceCosineSimilarity, float, float>("index_cosine"); }, prefetcher});
}
