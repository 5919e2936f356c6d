// Compaction of datasets: every kept vector moves to its new position, whatever the batch size and thread count.
#include "nh.h"
#include "svs/core/data/simple.h"
#include "svs/core/compact.h"
using namespace svs;
template <class Data, class T, class I> void go(const char* nm, nh::Rng& r, Data data, size_t n, size_t dims, size_t bs, size_t nt, int mode) {
    std::vector<std::vector<T>> orig(n, std::vector<T>(dims));
    for (size_t i = 0; i < n; ++i) { for (auto& x : orig[i]) x = (T)r.range(-100, 100); if (dims) orig[i][0] = (T)(i % 113); data.set_datum(i, std::span<const T>(orig[i].data(), dims)); }
    std::vector<I> map;
    size_t drop_to = r.below(n + 1), keep = 1 + r.below(4);
    for (size_t i = 0; i < n; ++i) if (mode == 0 || (mode == 1 && r.below(keep + 1)) || (mode == 2 && i >= drop_to) || (mode == 3 && i % 7 != 3)) map.push_back(i);
    nh::begin(nm, nh::str("n", n, "dims", dims, "batch", bs, "threads", nt, "kept", nh::list(map)));
    try {
        if (nt == 0) data.compact(std::span<const I>(map.data(), map.size()), bs);
        else { threads::NativeThreadPool p(nt); data.compact(std::span<const I>(map.data(), map.size()), p, bs); }
    } catch (const std::exception& e) { nh::fail(std::string("unexpected exception: ") + e.what()); return; }
    nh::check(data.size() == n && data.dimensions() == dims, "compaction does not change size or dimensions");
    for (size_t i = 0; i < n; ++i) {
        auto d = data.get_datum(i);
        auto& want = orig[i < map.size() ? map[i] : i];
        if (!nh::check(d.size() == dims && std::equal(d.begin(), d.end(), want.begin()), nh::str("position", i, i < map.size() ? "does not hold the kept vector" : "beyond the kept vectors changed", i < map.size() ? (size_t)map[i] : i))) break;
    }
}
void mismatch() {
    auto a = data::SimpleData<float>(4, 3);
    for (size_t i = 0; i < 4; ++i) { float v[3] = {(float)i, 1, 2}; a.set_datum(i, std::span<const float>(v, 3)); }
    auto b = data::SimpleData<float>(2, 4);
    std::vector<uint32_t> m{1, 3};
    nh::begin("mismatched buffer", "dims 3 vs 4");
    auto p = threads::SequentialThreadPool();
    nh::check(nh::throws([&] { compact_data(a, b, std::span<const uint32_t>(m.data(), 2), p); }), "a buffer of other dimensions is refused");
    for (size_t i = 0; i < 4; ++i) nh::check(a.get_datum(i)[0] == (float)i, "refused compaction leaves the data alone");
    nh::begin("direct", "buffer of 2 rows");
    auto c = data::SimpleData<float>(2, 3);
    compact_data(a, c, std::span<const uint32_t>(m.data(), 2), p);
    nh::check(a.get_datum(0)[0] == 1 && a.get_datum(1)[0] == 3 && a.get_datum(2)[0] == 2 && a.get_datum(3)[0] == 3, "kept vectors move");
}
int main(int c, char** v) {
    return nh::run(c, v, {mismatch, [] {
        nh::Rng r(nh::seed + 5);
        size_t reps = nh::thorough ? 12 : 2;
        for (size_t rep = 0; rep < reps; ++rep)
            for (size_t n : {1, 2, 3, 8, 17, 33, 64, 65}) for (size_t bs : {1, 2, 3, 5, 16, 17, 32, 63, 64, 65, 1000000}) for (int mode = 0; mode < 4; ++mode) {
                size_t nt = r.below(5), dims = 1 + r.below(9);
                go<data::SimpleData<float>, float, uint32_t>("SimpleData<float>", r, data::SimpleData<float>(n, dims), n, dims, bs, nt, mode);
                go<data::SimpleData<int8_t, 3>, int8_t, size_t>("SimpleData<int8_t, 3>", r, data::SimpleData<int8_t, 3>(n, 3), n, 3, bs, nt, mode);
                auto param = data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(6 + r.below(4))};
                go<data::BlockedData<float>, float, uint32_t>("BlockedData<float>", r, data::BlockedData<float>(n, dims, data::Blocked<lib::Allocator<float>>(param)), n, dims, bs, nt, mode);
            }
    }});
}
