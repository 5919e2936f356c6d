// Every index of a partitioned index space reaches the body exactly once, on the real pools.
#include "nh.h"
#include <atomic>
#include <mutex>
#include "svs/lib/threads.h"
using namespace svs::threads;
template <class P, class Part> void once(const char* nm, P& pool, size_t n, size_t base, Part part, size_t grain, const std::string& d) {
    nh::begin(nm, d);
    std::vector<std::atomic<int>> hit(n);
    std::mutex m;
    std::vector<size_t> sizes;
    std::atomic<int> bad{0};
    run(pool, part, [&](const auto& range, uint64_t tid) {
        if (tid >= pool.size() || range.size() == 0) bad++;
        size_t c = 0;
        for (auto i : UnitRange{range}) {
            if (i < base || i >= base + n) { bad++; continue; }
            hit[i - base]++;
            c++;
        }
        if (c != range.size()) bad++;
        std::lock_guard l(m);
        sizes.push_back(c);
    });
    nh::check(!bad, "a body got an empty or out-of-range chunk or a bad thread id");
    for (size_t i = 0; i < n; ++i)
        if (hit[i] != 1) { nh::fail("index " + std::to_string(i) + " was handed out " + std::to_string(hit[i].load()) + " times"); break; }
    if (grain) {
        size_t partial = 0;
        for (auto s : sizes) { if (s > grain) nh::fail("chunk larger than the grain size"); if (s < grain) partial++; }
        nh::check(partial <= 1, "more than one chunk below the grain size");
    } else if (!sizes.empty() && sizes.size() == pool.size()) {
        nh::check(*std::max_element(sizes.begin(), sizes.end()) - *std::min_element(sizes.begin(), sizes.end()) <= 1, "shares differ by more than one index");
    }
}
void partition() {
    nh::Rng r(nh::seed);
    for (size_t nt = 1; nt <= 9; ++nt) {
        for (size_t n : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 19, 31, 63, 64, 65, 80, 81, 1000}) {
            for (size_t t = 0; t < nt; ++t) {
                nh::begin("balance", nh::str("n", n, "threads", nt, "tid", t));
                auto u = balance(n, nt, t);
                size_t q = n / nt, k = n % nt, a = t * q + std::min(t, k), b = a + q + (t < k);
                nh::check(u.start() == a && u.stop() == b && u.size() == b - a && u.empty() == (a == b), "share of a thread is wrong");
            }
        }
        NativeThreadPool pool(nt);
        for (size_t n : {0, 1, 2, 3, 5, 7, 8, 9, 16, 17, 100, 1001}) {
            once("static", pool, n, 0, StaticPartition{n}, 0, nh::str("n", n, "threads", nt));
            size_t s = r.below(1000);
            once("static-range", pool, n, s, StaticPartition{s, s + n}, 0, nh::str("start", s, "n", n, "threads", nt));
            once("static-unit", pool, n, s, StaticPartition<IndexIterator<size_t>>(UnitRange<size_t>(s, s + n)), 0, nh::str("start", s, "n", n, "threads", nt));
            for (size_t g : {1, 2, 3, 7, 16, 100, 5000}) {
                once("dynamic", pool, n, 0, DynamicPartition{n, g}, g, nh::str("n", n, "grain", g, "threads", nt));
                once("dynamic-range", pool, n, s, DynamicPartition{s, s + n, g}, g, nh::str("start", s, "n", n, "grain", g, "threads", nt));
            }
        }
        SequentialThreadPool seq;
        once("sequential", seq, 17, 3, StaticPartition{size_t(3), size_t(20)}, 0, "17");
        once("sequential", seq, 17, 3, DynamicPartition{size_t(3), size_t(20), 4}, 4, "17 grain 4");
    }
}
template <class T> void ranges() {
    for (T a = 0; a < 6; ++a)
        for (T b = 0; b < 6; ++b) {
            UnitRange<T> u(a, b);
            nh::begin("unit-range", nh::str("start", +a, "stop", +b, "width", sizeof(T)));
            T e = std::max(a, b);
            nh::check(u.size() == (size_t)(e - a) && u.empty() == (e == a) && u.start() == a && u.stop() == e, "bounds");
            size_t c = 0;
            for (auto i : u) { nh::check(i == (T)(a + c) && u[c] == i, "elements"); ++c; }
            nh::check(c == u.size() && u.eachindex() == UnitRange<size_t>(0, c), "iteration covers the range");
            for (T i = 0; i < 8; ++i) nh::check(u.contains(i) == (i >= a && i < e), "contains");
            nh::check(!u.contains(std::numeric_limits<T>::max()), "contains max");
            nh::check(nh::throws([&] { (void)u.at(c); }) && (c == 0 || !nh::throws([&] { (void)u.at(c - 1); })), "at() checks bounds");
        }
}
int main(int argc, char** argv) { return nh::run(argc, argv, {partition, ranges<size_t>, ranges<uint32_t>}); }
