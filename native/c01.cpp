// SearchBuffer against a reference model: a sorted list kept by naive insertion.
#include "nh.h"
#include "svs/index/vamana/search_buffer.h"
using namespace svs;
using namespace svs::index::vamana;

struct E { uint32_t id; float d; bool vis; };

template <typename Cmp> struct Ref {
    Cmp cmp{};
    size_t window, cap;
    std::vector<E> v;
    // returns 0 skipped, 1 duplicate, 2 inserted (pos in `pos`)
    size_t insert(uint32_t id, float d) {
        if (v.size() == cap && cap > 0 && cmp(v.back().d, d)) return v.size();
        for (auto& e : v)
            if (e.id == id && e.d == d) return v.size() + 1;
        size_t p = 0;
        while (p < v.size() && !cmp(d, v[p].d)) ++p;
        v.insert(v.begin() + p, E{id, d, false});
        if (v.size() > cap) v.pop_back();
        return p;
    }
    size_t upper() const { return std::min(v.size(), window); }
    int firstun() const {
        for (size_t i = 0; i < upper(); ++i) if (!v[i].vis) return (int)i;
        return -1;
    }
};

template <typename Cmp> void episode(uint64_t seed, size_t window, size_t cap, int nops, int nd, int nid, const char* nm, bool vis) {
    nh::Rng r(seed);
    SearchBuffer<uint32_t, Cmp> b{SearchBufferConfig(window, cap), Cmp(), vis};
    Ref<Cmp> ref{Cmp(), window, cap, {}};
    std::ostringstream log;
    log << "buffer<" << nm << ">(window=" << window << ",capacity=" << cap << ")";
    std::set<uint32_t> emplaced;
    auto same = [&](const char* when) {
        bool ok = b.size() == ref.v.size();
        for (size_t i = 0; ok && i < b.size(); ++i) ok = b[i].id() == ref.v[i].id && b[i].distance() == ref.v[i].d && b[i].visited() == ref.v[i].vis;
        nh::check(ok, std::string("buffer contents differ from the sorted reference after ") + when);
        nh::check(b.done() == (ref.firstun() < 0), std::string("done() wrong after ") + when);
        nh::check(b.full() == (ref.v.size() == cap), std::string("full() wrong after ") + when);
        return ok;
    };
    bool started = false;
    for (int i = 0; i < nops; ++i) {
        int op = r.below(10);
        uint32_t id = r.below(nid);
        // the same id always comes with the same distance (precondition of the search)
        float d = r.below(4) == 0 ? (float)r.below(nd) : (float)((id * 7) % nd);
        if (op == 9 && r.below(6) == 0) {
            log << " clear"; nh::begin("search_buffer", log.str());
            b.clear(); ref.v.clear(); started = false; emplaced.clear();
            same("clear");
        } else if (!started && op < 3) {
            log << " push(" << id << ',' << d << ")"; nh::begin("search_buffer", log.str());
            b.push_back({id, d});
            if (ref.v.size() < cap) ref.v.push_back({id, d, false});
            same("push_back");
        } else if (!started && op < 5) {
            log << " sort"; nh::begin("search_buffer", log.str());
            b.sort();
            started = true;
            // distances in order; contents a permutation
            bool ok = b.size() == ref.v.size();
            std::multiset<std::pair<uint32_t, float>> x, y;
            for (size_t k = 0; ok && k < b.size(); ++k) { x.insert({b[k].id(), b[k].distance()}); y.insert({ref.v[k].id, ref.v[k].d}); }
            ok = ok && x == y;
            for (size_t k = 1; ok && k < b.size(); ++k) ok = !Cmp()(b[k].distance(), b[k - 1].distance());
            nh::check(ok, "sort() does not yield a sorted permutation");
            if (!ok) return;
            for (size_t k = 0; k < b.size(); ++k) ref.v[k] = {b[k].id(), b[k].distance(), false};
        } else if (started && op < 3 && !b.done()) {
            log << " next"; nh::begin("search_buffer", log.str());
            int k = ref.firstun();
            if (k < 0) { nh::fail("done() is false with no unvisited candidate"); return; }
            auto& n = b.next();
            nh::check(n.id() == ref.v[k].id && n.distance() == ref.v[k].d, "next() is not the best unvisited candidate");
            ref.v[k].vis = true;
            same("next");
        } else {
            if (!started) { started = true; log << " sort"; b.sort(); for (size_t k = 0; k < b.size() && k < ref.v.size(); ++k) ref.v[k] = {b[k].id(), b[k].distance(), false}; }
            log << " insert(" << id << ',' << d << ")"; nh::begin("search_buffer", log.str());
            bool sk = b.can_skip(d);
            nh::check(sk == (ref.v.size() == cap && Cmp()(ref.v.back().d, d)), "can_skip() wrong");
            size_t got = b.insert({id, d});
            size_t want = ref.insert(id, d);
            nh::check(got == want, nh::str("insert() returned", got, "instead of", want));
            if (!same("insert")) return;
        }
        if (nh::nfail > 6) return;
    }
}

int main(int argc, char** argv) {
    return nh::run(argc, argv, {
        [] {
            int n = nh::thorough ? 60000 : 4000;
            nh::Rng r(nh::seed);
            for (int i = 0; i < n && nh::nfail < 6; ++i) {
                size_t cap = 1 + r.below(i % 5 == 0 ? 20 : 5), win = 1 + r.below(cap);
                uint64_t s = r.next();
                int nops = 3 + r.below(i % 7 == 0 ? 60 : 14), nd = 1 + r.below(8), nid = 2 + r.below(12);
                if (i & 1) episode<std::less<>>(s, win, cap, nops, nd, nid, "less", i % 3 == 0);
                else episode<std::greater<>>(s, win, cap, nops, nd, nid, "greater", i % 3 == 0);
            }
        },
        [] { // reconfiguration followed by clear()
            nh::Rng r(nh::seed + 9);
            for (int i = 0; i < 300; ++i) {
                size_t c1 = 1 + r.below(6), c2 = 1 + r.below(6), w2 = 1 + r.below(c2);
                nh::begin("search_buffer_resize", nh::str("capacity", c1, "->", w2, c2));
                SearchBuffer<uint32_t> b{c1};
                for (size_t k = 0; k < c1; ++k) b.insert({(uint32_t)k, (float)r.below(5)});
                b.change_maxsize(SearchBufferConfig(w2, c2));
                b.clear();
                std::vector<float> ds;
                for (size_t k = 0; k < 12; ++k) { float d = r.below(9); b.insert({(uint32_t)k, d}); ds.push_back(d); }
                std::sort(ds.begin(), ds.end());
                bool ok = b.size() == std::min<size_t>(c2, 12) && b.capacity() == c2;
                for (size_t k = 0; ok && k < b.size(); ++k) ok = b[k].distance() == ds[k];
                nh::check(ok, "buffer does not hold the best candidates after reconfiguration");
                auto c = b.shallow_copy();
                nh::check(c.capacity() == c2 && c.size() == 0 && c.config() == b.config(), "shallow_copy() loses the configuration");
            }
        },
    });
}
