// MutableBuffer against a reference model that recomputes everything from the list of stored candidates.
#include "nh.h"
#include "svs/index/vamana/dynamic_search_buffer.h"
using namespace svs;
using namespace svs::index::vamana;

struct E { uint32_t id; float d; bool valid, vis; };

template <typename Cmp> struct Ref {
    Cmp cmp{};
    size_t target, cap;
    std::vector<E> v;
    size_t nvalid() const { size_t n = 0; for (auto& e : v) n += e.valid; return n; }
    void trim() {  // keep at most cap valid candidates and nothing after the cap-th
        size_t n = 0;
        for (size_t i = 0; i < v.size(); ++i) if (v[i].valid && ++n == cap) { v.resize(i + 1); return; }
    }
    size_t insert(uint32_t id, float d, bool valid) {
        if (nvalid() == cap && cmp(v.back().d, d)) return v.size();
        for (auto& e : v) if (e.id == id && e.d == d) return v.size() + 1;
        size_t p = 0;
        while (p < v.size() && !cmp(d, v[p].d)) ++p;
        v.insert(v.begin() + p, E{id, d, valid, false});
        trim();
        return p;
    }
    size_t roi() const {
        size_t n = 0;
        for (size_t i = 0; i < v.size(); ++i) if (v[i].valid && ++n == target) return i + 1;
        return v.size();
    }
    int firstun() const {
        for (size_t i = 0; i < roi(); ++i) if (!v[i].vis) return (int)i;
        return -1;
    }
};

template <typename Cmp> void episode(uint64_t seed, size_t target, size_t cap, int nops, int nd, int nid, int pv, const char* nm, bool vis) {
    nh::Rng r(seed);
    MutableBuffer<uint32_t, Cmp> b{SearchBufferConfig(target, cap), Cmp(), vis};
    Ref<Cmp> ref{Cmp(), target, cap, {}};
    std::ostringstream log;
    log << "buffer<" << nm << ">(target=" << target << ",capacity=" << cap << ")";
    bool started = false;
    auto same = [&](const char* when) {
        bool ok = b.size() == ref.v.size();
        for (size_t i = 0; ok && i < b.size(); ++i) ok = b[i].id() == ref.v[i].id && b[i].distance() == ref.v[i].d && b[i].visited() == ref.v[i].vis && b[i].valid() == ref.v[i].valid;
        nh::check(ok, std::string("buffer contents differ from the reference after ") + when);
        nh::check(b.valid() == ref.nvalid(), std::string("the valid count is wrong after ") + when);
        nh::check(b.full() == (ref.nvalid() == cap), std::string("full() wrong after ") + when);
        if (started) nh::check(b.done() == (ref.firstun() < 0), std::string("done() wrong after ") + when);
        return ok;
    };
    auto dosort = [&] {
        log << " sort"; nh::begin("mutable_buffer", log.str());
        b.sort();
        started = true;
        std::stable_sort(ref.v.begin(), ref.v.end(), [](const E& a, const E& c) { return Cmp()(a.d, c.d); });
        ref.trim();
        bool ok = b.size() == ref.v.size() || ref.nvalid() == cap;  // ties at the end may be cut differently
        for (size_t k = 1; ok && k < b.size(); ++k) ok = !Cmp()(b[k].distance(), b[k - 1].distance());
        size_t n = 0;
        for (size_t k = 0; k < b.size(); ++k) n += b[k].valid();
        ok = ok && n == ref.nvalid() && b.valid() == n && (n < cap || b.back().valid());
        std::multiset<std::pair<uint32_t, float>> x, y;
        for (size_t k = 0; k < b.size(); ++k) if (b[k].valid()) x.insert({b[k].id(), b[k].distance()});
        for (auto& e : ref.v) if (e.valid) y.insert({e.id, e.d});
        nh::check(ok && x == y, "sort() loses or misplaces candidates");
        ref.v.clear();
        for (size_t k = 0; k < b.size(); ++k) ref.v.push_back({b[k].id(), b[k].distance(), b[k].valid(), b[k].visited()});
        return ok && same("sort");
    };
    for (int i = 0; i < nops; ++i) {
        int op = r.below(10);
        uint32_t id = r.below(nid);
        bool valid = (id * 31 + seed) % 10 < (uint64_t)pv;  // an id is always valid or never
        float d = r.below(4) == 0 ? (float)r.below(nd) : (float)((id * 7) % nd);
        if (op == 9 && r.below(6) == 0) {
            log << " clear"; nh::begin("mutable_buffer", log.str());
            b.clear(); ref.v.clear(); started = false;
            same("clear");
        } else if (!started && op < 4) {
            log << " push(" << id << ',' << d << ',' << valid << ")"; nh::begin("mutable_buffer", log.str());
            b.push_back({id, d, valid});
            if (!(valid && ref.nvalid() == cap)) ref.v.push_back({id, d, valid, false});
            same("push_back");
        } else if (!started) {
            if (!dosort()) return;
        } else if (op < 3 && !b.done()) {
            log << " next"; nh::begin("mutable_buffer", log.str());
            int k = ref.firstun();
            if (k < 0) { nh::fail("done() is false with no unvisited candidate"); return; }
            auto n = b.next();
            nh::check(n.id() == ref.v[k].id && n.distance() == ref.v[k].d, "next() is not the best unvisited candidate");
            ref.v[k].vis = true;
            if (!same("next")) return;
        } else if (op == 8 && r.below(8) == 0) {
            log << " cleanup"; nh::begin("mutable_buffer", log.str());
            b.cleanup();
            std::erase_if(ref.v, [](const E& e) { return !e.valid; });
            bool ok = b.size() == ref.v.size();
            for (size_t k = 0; ok && k < b.size(); ++k) ok = b[k].id() == ref.v[k].id && b[k].distance() == ref.v[k].d && b[k].valid();
            nh::check(ok, "cleanup() does not leave exactly the valid candidates in order");
            b.clear(); ref.v.clear(); started = false;
        } else {
            log << " insert(" << id << ',' << d << ',' << valid << ")"; nh::begin("mutable_buffer", log.str());
            bool sk = b.can_skip(d);
            nh::check(sk == (ref.nvalid() == cap && Cmp()(ref.v.back().d, d)), "can_skip() wrong");
            size_t got = b.insert({id, d, valid});
            size_t want = ref.insert(id, d, valid);
            nh::check(got == want, nh::str("insert() returned", got, "instead of", want));
            if (!same("insert")) return;
        }
        if (nh::nfail > 6) return;
    }
}

int main(int argc, char** argv) {
    return nh::run(argc, argv, {
        [] {
            int n = nh::thorough ? 80000 : 6000;
            nh::Rng r(nh::seed);
            for (int i = 0; i < n && nh::nfail < 6; ++i) {
                size_t cap = 1 + r.below(i % 5 == 0 ? 20 : 5), tgt = i % 3 == 0 ? cap : 1 + r.below(cap);
                uint64_t s = r.next();
                int nops = 3 + r.below(i % 7 == 0 ? 80 : 20), nd = 1 + r.below(8), nid = 2 + r.below(14), pv = r.below(11);
                if (i & 1) episode<std::less<>>(s, tgt, cap, nops, nd, nid, pv, "less", i % 3 == 0);
                else episode<std::greater<>>(s, tgt, cap, nops, nd, nid, pv, "greater", i % 3 == 0);
            }
        },
        [] { // reconfiguration followed by clear(), and the visited filter
            nh::Rng r(nh::seed + 9);
            for (int i = 0; i < 300; ++i) {
                size_t c1 = 1 + r.below(6), c2 = 1 + r.below(6), w2 = 1 + r.below(c2);
                nh::begin("mutable_buffer_resize", nh::str("capacity", c1, "->", w2, c2));
                MutableBuffer<uint32_t> b{SearchBufferConfig(c1, c1), std::less<>(), i % 2 == 0};
                for (size_t k = 0; k < c1; ++k) b.insert({(uint32_t)k, (float)r.below(5), r.below(2) == 0});
                b.emplace_visited(7);
                b.change_maxsize(SearchBufferConfig(w2, c2));
                b.clear();
                nh::check(!b.is_visited(7), "clear() keeps a visited id");
                std::vector<float> ds;
                for (size_t k = 0; k < 20; ++k) { float d = r.below(9); bool v = r.below(2); b.insert({(uint32_t)k, d, v}); if (v) ds.push_back(d); }
                b.cleanup();
                std::sort(ds.begin(), ds.end());
                bool ok = b.size() == std::min(c2, ds.size()) && b.target() == c2;
                for (size_t k = 0; ok && k < b.size(); ++k) ok = b[k].distance() == ds[k];
                nh::check(ok, "the buffer does not hold the best valid candidates after reconfiguration");
                auto c = b.shallow_copy();
                nh::check(c.target() == c2 && c.size() == 0 && c.config() == b.config() && c.visited_set_enabled() == b.visited_set_enabled(), "shallow_copy() loses the configuration");
            }
        },
    });
}
