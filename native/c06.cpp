// Graph adjacency lists against a model.
#include "nh.h"
#include "svs/core/graph.h"
using namespace svs;
template <class G, class I> void check_graph(G& g, const std::vector<std::vector<I>>& m, size_t maxdeg, const char* when) {
    nh::check(g.n_nodes() == m.size() && g.max_degree() == maxdeg, "number of nodes / maximum degree changed");
    const G& c = g;
    for (size_t i = 0; i < m.size(); ++i) {
        auto l = c.get_node(i);
        nh::check(l.size() == m[i].size() && std::equal(l.begin(), l.end(), m[i].begin()), (std::string("adjacency list is not the expected one ") + when).c_str());
        nh::check(c.get_node_degree(i) == m[i].size() && m[i].size() <= maxdeg, "degree");
    }
}
template <class G, class I> void run_one(const char* nm, G g, size_t n, size_t maxdeg, nh::Rng& r, int steps, bool blocked) {
    std::vector<std::vector<I>> m(n);
    std::string hist;
    nh::begin(nm, nh::str("nodes", n, "max degree", maxdeg, "new graph"));
    check_graph(g, m, maxdeg, "(new graph)");
    for (int s = 0; s < steps; ++s) {
        if (n == 0) break;
        I a = r.below(n), b = r.below(3) ? r.below(n) : r.below(std::min<size_t>(n, 4));
        int op = r.below(10);
        if (op < 6) {
            hist += " add " + std::to_string(a) + "->" + std::to_string(b);
            nh::begin(nm, nh::str("nodes", n, "max degree", maxdeg, "history", hist));
            size_t d = g.add_edge(a, b);
            auto& l = m[a];
            if (a != b && l.size() < maxdeg && std::find(l.begin(), l.end(), b) == l.end()) l.push_back(b);
            nh::check(d == l.size(), "add_edge returns the new degree");
            nh::check(g.has_edge(a, b) == (std::find(l.begin(), l.end(), b) != l.end()), "has_edge after add_edge");
        } else if (op < 9) {
            size_t k = r.below(maxdeg + 3);
            std::vector<I> v;
            for (size_t i = 0; i < k; ++i) v.push_back(r.below(n));
            hist += " replace " + std::to_string(a) + nh::list(v);
            nh::begin(nm, nh::str("nodes", n, "max degree", maxdeg, "history", hist));
            if (r.below(2)) g.replace_node(a, v); else g.replace_node(a, std::span<const I>(v));
            if (v.size() > maxdeg) v.resize(maxdeg);
            m[a] = v;
        } else if (r.below(4)) {
            hist += " clear " + std::to_string(a);
            nh::begin(nm, nh::str("nodes", n, "max degree", maxdeg, "history", hist));
            g.clear_node(a);
            m[a].clear();
        } else if (r.below(4) == 0) {
            hist += " reset";
            nh::begin(nm, nh::str("nodes", n, "max degree", maxdeg, "history", hist));
            g.reset();
            for (auto& l : m) l.clear();
        }
        if constexpr (requires { g.add_node(); }) {
            if (r.below(12) == 0) {
                hist += " add_node";
                nh::begin(nm, nh::str("nodes", n, "max degree", maxdeg, "history", hist));
                g.add_node();
                ++n;
                m.push_back({});
                g.clear_node(n - 1);
            } else if (r.below(30) == 0) {
                size_t k = 1 + r.below(n);
                hist += " resize " + std::to_string(k);
                nh::begin(nm, nh::str("nodes", n, "max degree", maxdeg, "history", hist));
                g.unsafe_resize(k);
                n = k;
                m.resize(n);
            }
        }
        check_graph(g, m, maxdeg, "after the last operation");
        if (hist.size() > 1200) break;
    }
}
template <class I> void simple(const char* nm) {
    nh::Rng r(nh::seed * 7 + sizeof(I));
    for (int ep = 0; ep < (nh::thorough ? 600 : 60); ++ep) {
        size_t n = 1 + r.below(12), d = r.below(4) ? r.below(9) : r.below(60);
        run_one<graphs::SimpleGraph<I>, I>(nm, graphs::SimpleGraph<I>(n, d), n, d, r, 60, false);
    }
    for (int ep = 0; ep < 3; ++ep) {
        size_t n = 120, d = std::min<size_t>(100, ep == 0 ? 64 : 15 + ep);
        run_one<graphs::SimpleGraph<I>, I>(nm, graphs::SimpleGraph<I>(n, d), n, d, r, 400, false);
    }
    // dense rows
    for (size_t d : {15, 16, 17, 31, 32, 33, 64, 127}) {
        graphs::SimpleGraph<I> g(3, d);
        std::vector<std::vector<I>> m(3);
        for (size_t t = 0; t < 200; ++t) {
            nh::begin(nm, nh::str("max degree", d, "edges 1->0..", t));
            size_t k = g.add_edge(1, I(t));
            if (t != 1 && m[1].size() < d) m[1].push_back(I(t));
            nh::check(k == m[1].size(), "add_edge returns the new degree");
        }
        check_graph(g, m, d, "after filling one vertex");
    }
}
void blocked() {
    nh::Rng r(nh::seed * 13);
    using G = graphs::SimpleBlockedGraph<uint32_t>;
    using A = data::Blocked<HugepageAllocator<uint32_t>>;
    for (int ep = 0; ep < (nh::thorough ? 300 : 40); ++ep) {
        size_t n = 1 + r.below(40), d = 1 + r.below(9);
        data::BlockingParameters p{lib::PowerOfTwo(6 + r.below(4))};
        G g(data::BlockedData<uint32_t, Dynamic, HugepageAllocator<uint32_t>>(n, d + 1, A(p)));
        g.reset();
        run_one<G, uint32_t>("blocked_graph", std::move(g), n, d, r, 60, true);
    }
}
int main(int argc, char** argv) {
    return nh::run(argc, argv, {[] { simple<uint32_t>("simple_graph"); }, [] { simple<uint16_t>("simple_graph16"); }, [] { simple<uint8_t>("simple_graph8"); }, [] { simple<uint64_t>("simple_graph64"); }, blocked});
}
