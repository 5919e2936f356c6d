// Files of vectors: what is written comes back, in every format, for every element type, size and conversion.
#include "nh.h"
#include <fstream>
#include "svs/core/data/simple.h"
#include "svs/core/data/io.h"
#include "svs/core/graph/graph.h"
#include "svs/core/io.h"
#include "svs/lib/saveload.h"
using namespace svs;
namespace fs = std::filesystem;
template <class T> T comp(nh::Rng& r, size_t dims) {
    switch (r.below(6)) {
        case 0: return T(0);
        case 1: return (T)std::min<size_t>(dims, 100);  // looks like the length of a vector
        case 2: return std::numeric_limits<T>::max();
        case 3: return std::numeric_limits<T>::lowest();
        default: return (T)r.range(-100, 100);
    }
}
template <> Float16 comp<Float16>(nh::Rng& r, size_t) { return Float16((float)r.range(-64, 64) / 4); }
template <class T> using Rows = std::vector<std::vector<T>>;
template <class T> bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> Rows<T> rows(nh::Rng& r, size_t n, size_t d, bool fill) {
    Rows<T> o(n, std::vector<T>(d));
    for (auto& v : o) for (auto& x : v) x = fill ? (T)d : comp<T>(r, d);
    return o;
}
template <class T> Rows<T> rows(nh::Rng& r, size_t n, size_t d) { return rows<T>(r, n, d, n && d && d < 100 && r.below(5) == 0); }
template <class R, class T> void readback(R&& reader, const Rows<T>& o, size_t d, size_t want) {
    for (int pass = 0; pass < 2; ++pass) {  // the reader can be restarted
        size_t i = 0;
        for (auto v : reader) {
            if (!nh::check(i < want, "more vectors are read than asked for")) return;
            if (!nh::check(v.size() == d, "a vector read has another length")) return;
            for (size_t k = 0; k < d; ++k) if (!nh::check(same<T>(v[k], o[i][k]), nh::str("vector", i, "component", k, "differs"))) return;
            ++i;
        }
        if (!nh::check(i == want, nh::str("read", i, "vectors of", want))) return;
    }
}
template <class D, class T> void holds(const D& data, const Rows<T>& o, size_t d) {
    if (!nh::check(data.size() == o.size() && data.dimensions() == d, nh::str("the dataset is", data.size(), "x", data.dimensions()))) return;
    for (size_t i = 0; i < o.size(); ++i) for (size_t k = 0; k < d; ++k)
        if (!nh::check(same<T>(data.get_datum(i)[k], o[i][k]), nh::str("stored vector", i, "component", k, "differs"))) return;
}
size_t fsize(const fs::path& p) { return fs::file_size(p); }
template <class T> void vecs(nh::Rng& r, size_t n, size_t d) {
    auto o = rows<T>(r, n, d);
    nh::begin("vecs", nh::str("element", sizeof(T), "n", n, "d", d, "first", d ? (double)(float)o[0][0] : 0.0));
    std::string p = "a.fvecs";
    { auto w = io::vecs::VecsWriter<T>(p, d); for (auto& v : o) w << v; }
    nh::check(fsize(p) == n * (4 + sizeof(T) * d), "size of the file");
    auto [a, b] = io::vecs::get_dims(fs::path(p), sizeof(T));
    nh::check(a == n && b == d, nh::str("get_dims with the element size says", a, b));
    nh::check(io::vecs::VecsFile(p).get_dims(sizeof(T)).first == n, "VecsFile::get_dims");
    readback(io::vecs::VecsReader<T>(p), o, d, n);
    size_t m = r.below(n + 2);
    readback(io::vecs::VecsReader<T>(p, m), o, d, std::min(m, n));
    { auto rd = io::vecs::VecsReader<T>(p, r.below(n + 2)); size_t k = r.below(n + 3); rd.resize(k); readback(rd, o, d, std::min(k, n)); }
    holds(data::SimpleData<T>::load(p), o, d);
    bool marks = false;  // components that look like lengths make the file ambiguous
    for (auto& v : o) for (auto& x : v) { uint32_t w = 0; std::memcpy(&w, &x, std::min(sizeof(T), sizeof(w))); marks |= w == d; }
    if (!marks && sizeof(T) >= 4 && d >= 1) {
        auto [e, f] = io::vecs::get_dims(fs::path(p));
        nh::check(e == n && f == d, nh::str("get_dims without the element size says", e, f));
    }
    // a file whose size does not fit is refused
    std::ofstream(p, std::ios::binary | std::ios::app) << 'x';
    if ((n * (4 + sizeof(T) * d) + 1) % (4 + sizeof(T) * d)) nh::check(nh::throws([&] { io::vecs::VecsReader<T> x(p); }), "a file with a byte too many is refused");
    fs::resize_file(p, n * (4 + sizeof(T) * d) - 1);
    if (n * (4 + sizeof(T) * d) > 5) nh::check(nh::throws([&] { io::vecs::VecsReader<T> x(p); }), "a file with a byte missing is refused");
}
void single() {  // one short vector: the element size is what is left
    for (size_t es : {1, 2, 4, 8}) for (size_t d = 1; d < 9; ++d) {
        nh::begin("single vector vecs", nh::str("element", es, "d", d));
        { std::ofstream f("s.vecs", std::ios::binary); uint32_t l = d; f.write((char*)&l, 4); std::string z(es * d, '\x7f'); f.write(z.data(), z.size()); }
        try { auto [a, b] = io::vecs::get_dims(fs::path("s.vecs")); nh::check(a == 1 && b == d, nh::str("says", a, b)); } catch (const std::exception& e) { nh::fail(std::string("refused: ") + e.what()); }
    }
}
template <class T> void bin(nh::Rng& r, size_t n, size_t d) {
    auto o = rows<T>(r, n, d);
    nh::begin("bin", nh::str("element", sizeof(T), "n", n, "d", d));
    std::string p = "a.fbin";
    { auto w = io::binary::BinaryWriter<T>(p, n, d); for (auto& v : o) w << v; }
    nh::check(fsize(p) == 8 + n * sizeof(T) * d, "size of the file");
    for (size_t hint : {(size_t)0, sizeof(T)}) {
        auto [a, b] = io::binary::get_dims(fs::path(p), hint);
        nh::check(a == n && b == d, nh::str("get_dims says", a, b));
    }
    readback(io::binary::BinaryReader<T>(p), o, d, n);
    size_t m = r.below(n + 2);
    readback(io::binary::BinaryReader<T>(p, m), o, d, std::min(m, n));
    { auto rd = io::binary::BinaryReader<T>(p, r.below(n + 2)); size_t k = r.below(n + 3); rd.resize(k); readback(rd, o, d, std::min(k, n)); }
    if (n && d) holds(data::SimpleData<T>::load(p), o, d);
    if (n * d > 1) {
        std::ofstream(p, std::ios::binary | std::ios::app) << 'x';
        nh::check(nh::throws([&] { io::binary::BinaryReader<T> x(p); }), "a file with a byte too many is refused");
        nh::check(nh::throws([&] { io::binary::get_dims(fs::path(p)); }), "a file with a byte too many has no dimensions");
    } else if (n * d == 0) {
        std::ofstream(p, std::ios::binary | std::ios::app) << 'x';
        nh::check(nh::throws([&] { io::binary::get_dims(fs::path(p)); }), "a file without elements but with bytes is refused");
    }
}
template <class T> void native(nh::Rng& r, size_t n, size_t d) {
    auto o = rows<T>(r, n, d);
    nh::begin("native", nh::str("element", sizeof(T), "n", n, "d", d));
    fs::path p = "a.svs";
    lib::UUID id{};
    auto file = io::v1::NativeFile(p);
    {
        auto w = file.writer(lib::Type<T>(), d, id);
        size_t stop = r.below(n + 1), i = 0;
        for (auto& v : o) { if (i++ == stop) { w.writeheader(true); w.flush(); } w << v; }
    }
    {   // the untyped writer stores the elements as they come, here padded to the declared number of dimensions
        fs::path p2 = "u.svs";
        {
            auto w = io::v1::NativeFile(p2).writer(d, id);
            size_t stop = r.below(n + 1), i = 0;
            for (auto& v : o) { if (i++ == stop) { w.writeheader(true); w.flush(); } w << v; }
        }
        nh::check(fsize(p2) == 1024 + n * sizeof(T) * d, "size of the file of the untyped writer");
        std::ifstream a(p, std::ios::binary), b(p2, std::ios::binary);
        std::string x((std::istreambuf_iterator<char>(a)), {}), y((std::istreambuf_iterator<char>(b)), {});
        nh::check(x == y, "the untyped writer stores the same bytes as the typed one");
        // records made of several parts (a scaling and its elements)
        fs::path p3 = "t.svs";
        {
            auto w = io::v1::NativeFile(p3).writer(4 + d * sizeof(T), id);
            size_t stop = r.below(n + 1), i = 0;
            for (auto& v : o) { if (i == stop) { w.writeheader(true); w.flush(); } w << std::make_tuple(float(i++), v.empty() ? T{} : v.front()); }
        }
        nh::check(fsize(p3) == 1024 + n * (4 + sizeof(T)), "size of the file of records");
        std::ifstream c(p3, std::ios::binary);
        c.seekg(1024);
        for (size_t i = 0; i < n; ++i) {
            float f; T t;
            c.read(reinterpret_cast<char*>(&f), 4); c.read(reinterpret_cast<char*>(&t), sizeof(T));
            T e = o[i].empty() ? T{} : o[i].front();
            nh::check(c.good() && f == float(i) && std::memcmp(&t, &e, sizeof(T)) == 0, nh::str("record", i));
        }
    }
    nh::check(fsize(p) == 1024 + n * sizeof(T) * d, "size of the file");
    auto [a, b] = file.get_dims();
    nh::check(a == n && b == d, nh::str("get_dims says", a, b));
    nh::check(file.uuid() == id, "identifier");
    nh::check(io::classify(p) == io::FileSchema::V1, "classified as a native file");
    readback(file.reader(lib::Type<T>()), o, d, n);
    size_t m = r.below(n + 2);
    readback(file.reader(lib::Type<T>(), m), o, d, std::min(m, n));
    if (!d) return;
    holds(data::SimpleData<T>::load(p), o, d);
    auto small = data::Blocked<lib::Allocator<T>>(data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(10 + r.below(3))});
    holds(data::BlockedData<T>::load(p, small), o, d);
    auto data = data::SimpleData<T>(n, d);
    for (size_t i = 0; i < n; ++i) data.set_datum(i, std::span<const T>(o[i]));
    io::save(data, io::NativeFile("b.svs"));
    holds(data::SimpleData<T>::load("b.svs"), o, d);
    fs::remove_all("dir");
    lib::save_to_disk(data, "dir");
    holds(lib::load_from_disk<data::SimpleData<T>>("dir"), o, d);
    holds(lib::load_from_disk<data::BlockedData<T>>("dir", small), o, d);
    if (n) { io::save_vecs(data, "c.vecs"); readback(io::vecs::VecsReader<T>("c.vecs"), o, d, n); holds(data::SimpleData<T>::load("c.vecs"), o, d); }
}
void huge() {  // more elements than fit 32 bits (a sparse file)
    uint32_t n = 65536, d = 65537;
    nh::begin("huge bin", nh::str(n, d));
    { std::ofstream f("big.bin", std::ios::binary); f.write((char*)&n, 4); f.write((char*)&d, 4); }
    std::error_code ec;
    fs::resize_file("big.bin", 8 + (size_t)n * d, ec);
    if (!ec) {
        try { auto [a, b] = io::binary::get_dims(fs::path("big.bin"), 1); nh::check(a == n && b == d, nh::str("says", a, b)); } catch (const std::exception& e) { nh::fail(std::string("refused: ") + e.what()); }
        nh::check(nh::throws([] { io::binary::get_dims(fs::path("big.bin"), 2); }), "a file of another element size is refused");
    }
    fs::remove("big.bin");
}
void tuples() {  // rows of several types
    nh::begin("tuples", "uint64, float, uint8");
    auto f = io::v1::NativeFile("t.svs");
    { auto w = f.writer(13); for (int i = 0; i < 5; ++i) w << std::tuple<uint64_t, float, uint8_t>(i + 7, i / 2.0f, i); }
    nh::check(f.get_dims().first == 5 && fsize("t.svs") == 1024 + 5 * 13, "rows are counted and packed");
    std::ifstream s("t.svs", std::ios::binary); s.seekg(1024);
    for (int i = 0; i < 5; ++i) { uint64_t a; float b; uint8_t c; s.read((char*)&a, 8); s.read((char*)&b, 4); s.read((char*)&c, 1); nh::check(a == i + 7u && b == i / 2.0f && c == i, nh::str("row", i)); }
}
// writing with conversion: exact, or refused
template <class To, class From> void convert(From x, bool fits, const char* nm) {
    nh::begin("conversion", nh::str(nm, (double)x));
    bool thrown = false;
    { auto w = io::vecs::VecsWriter<To>(std::string("k.vecs"), 1); try { w << std::vector<From>{x}; } catch (const std::exception&) { thrown = true; } }
    if (!nh::check(thrown == !fits, fits ? "a value that fits is refused" : "a value that does not fit is written")) return;
    if (fits) for (auto v : io::vecs::VecsReader<To>("k.vecs")) nh::check((From)v[0] == x, "converted value");
}
void conversions() {
    convert<int8_t>(127.0f, true, "float->int8"); convert<int8_t>(-128.0f, true, "float->int8"); convert<int8_t>(1.5f, false, "float->int8");
    convert<uint8_t>((int32_t)255, true, "int32->uint8"); convert<uint8_t>((int32_t)256, false, "int32->uint8"); convert<uint8_t>((int32_t)-1, false, "int32->uint8");
    convert<uint32_t>((uint64_t)4294967295u, true, "uint64->uint32"); convert<uint32_t>((uint64_t)1 << 32, false, "uint64->uint32");
    convert<float>(0.5, true, "double->float"); convert<float>(0.1, false, "double->float"); convert<int32_t>((int64_t)-5, true, "int64->int32"); convert<uint32_t>((int64_t)-5, false, "int64->uint32");
}
void lists(nh::Rng& r) {
    size_t n = 1 + r.below(20), deg = 1 + r.below(8);
    auto g = graphs::SimpleGraph<uint32_t>(n, deg);
    Rows<uint32_t> o(n);
    for (size_t i = 0; i < n; ++i) {
        for (size_t k = 0; k < n && o[i].size() < deg; ++k) if (k != i && r.below(3) == 0) o[i].push_back(k);
        g.replace_node(i, std::span<const uint32_t>(o[i]));
    }
    nh::begin("graph", nh::str("n", n, "degree", deg));
    fs::remove_all("gdir");
    lib::save_to_disk(g, "gdir");
    auto h = lib::load_from_disk<graphs::SimpleGraph<uint32_t>>("gdir");
    if (!nh::check(h.n_nodes() == n && h.max_degree() == deg, "size of the graph loaded")) return;
    for (size_t i = 0; i < n; ++i) { auto l = h.get_node(i); nh::check(l.size() == o[i].size() && std::equal(l.begin(), l.end(), o[i].begin()), nh::str("list of", i)); }
}
int main(int c, char** v) {
    return nh::run(c, v, {single, huge, tuples, conversions, [] {
        nh::Rng r(nh::seed + 18);
        for (size_t rep = 0; rep < (nh::thorough ? 40u : 3u); ++rep)
            for (size_t n : {0, 1, 2, 3, 9, 10, 11, 12, 40}) for (size_t d : {0, 1, 2, 3, 4, 7, 16, 33}) {
                if (n && d) { vecs<float>(r, n, d); vecs<uint8_t>(r, n, d); vecs<int8_t>(r, n, d); vecs<Float16>(r, n, d); vecs<uint32_t>(r, n, d); vecs<double>(r, n, d); vecs<int64_t>(r, n, d); }
                bin<float>(r, n, d); bin<uint8_t>(r, n, d); bin<Float16>(r, n, d); bin<int64_t>(r, n, d);
                native<float>(r, n, d); native<uint8_t>(r, n, d); native<Float16>(r, n, d); native<uint32_t>(r, n, d);
            }
        for (size_t i = 0; i < (nh::thorough ? 500u : 60u); ++i) lists(r);
    }});
}
