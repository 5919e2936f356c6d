// VisitedFilter against a set of recorded ids.
#include "nh.h"
#include "svs/index/vamana/filter.h"
#include "svs/index/vamana/search_buffer.h"
#include "svs/index/vamana/dynamic_search_buffer.h"
using namespace svs::index::vamana;
template <class F> uint32_t pick(nh::Rng& r, const std::vector<uint32_t>& pool) {
    if (r.below(2)) return pool[r.below(pool.size())];
    return (uint32_t)r.below(0xFFFF0000u);
}
template <size_t N> void run(const char* nm) {
    nh::Rng r(nh::seed * 31 + N);
    VisitedFilter<uint32_t, N> f;
    for (int ep = 0; ep < (nh::thorough ? 200 : 20); ++ep) {
        std::set<uint32_t> s;
        f.reset();
        std::vector<uint32_t> pool;
        for (int i = 0; i < 12; ++i) {
            uint32_t base = (uint32_t)r.below(0xFFFF0000u);
            pool.push_back(base);
            pool.push_back(base ^ 0x10000u);
            pool.push_back(base ^ 1u);
            pool.push_back(base ^ 0x100u);
            pool.push_back(base & 0xFFFFu);
            pool.push_back((base & 0xFFFEu) | 0xFFFE0000u);
        }
        for (auto& p : pool) if (p >= 0xFFFF0000u) p = 5;
        for (int i = 0; i < 400; ++i) {
            uint32_t k = pick<VisitedFilter<uint32_t, N>>(r, pool);
            nh::begin(nm, nh::str("episode", ep, "step", i, "id", k, "recorded", s.size()));
            bool was = s.count(k) != 0;
            if (r.below(2)) {
                bool g = f.emplace(k);
                s.insert(k);
                nh::check(!g || was, "emplace() reports an id that was never recorded");
                nh::check(f.contains(k), "an id just recorded is not found");
            } else {
                nh::check(!f.contains(k) || was, "contains() reports an id that was never recorded");
            }
        }
        f.reset();
        for (uint32_t k : pool) { nh::begin(nm, nh::str("after reset, id", k)); nh::check(!f.contains(k), "an id is reported as visited after reset"); }
    }
}
template <class B> void buf(const char* nm) {
    nh::Rng r(nh::seed);
    B b{SearchBufferConfig(4)};
    for (int ep = 0; ep < 20; ++ep) {
        std::set<uint32_t> s;
        if (ep % 3 == 0) b.disable_visited_set(); else b.enable_visited_set();
        b.clear();
        for (int i = 0; i < 200; ++i) {
            uint32_t k = (uint32_t)(r.below(8) * 65536 + r.below(8));
            nh::begin(nm, nh::str("episode", ep, "step", i, "id", k));
            bool was = s.count(k);
            bool g = r.below(2) ? b.is_visited(k) : (s.insert(k), b.emplace_visited(k));
            nh::check(!g || (was && b.visited_set_enabled()), "buffer reports an id that was never recorded as visited");
        }
    }
}
int main(int argc, char** argv) {
    return nh::run(argc, argv, {[] { run<16>("filter16"); }, [] { run<8>("filter8"); }, [] { run<18>("filter18"); },
        [] { buf<SearchBuffer<uint32_t>>("search_buffer_visited"); }, [] { buf<MutableBuffer<uint32_t>>("mutable_buffer_visited"); }});
}
