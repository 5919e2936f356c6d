// Vector storage against a model.
#include "nh.h"
#include "svs/core/data.h"
#include "svs/lib/array.h"
using namespace svs;
template <class T> T val(nh::Rng& r) {
    if constexpr (std::is_integral_v<T>) return T(r.next());
    else return T(float(r.range(-2000, 2000)) / 4.0f);
}
template <class T> bool eq(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template <class D, class T> void same(const D& d, const std::vector<std::vector<T>>& m, size_t dims) {
    nh::check(d.size() == m.size() && d.dimensions() == dims, "size or dimensions wrong");
    const T* prev = nullptr;
    for (size_t i = 0; i < m.size(); ++i) {
        auto v = d.get_datum(i);
        nh::check(v.size() == dims, "a vector has the dataset's dimensions");
        for (size_t j = 0; j < dims; ++j) nh::check(eq<T>(v[j], m[i][j]), "stored component differs from the one written");
    }
    size_t c = 0;
    for (auto i : d.eachindex()) { nh::check(i == c, "eachindex counts up from zero"); ++c; }
    nh::check(c == m.size(), "eachindex covers every vector");
}
template <class T, class D, class Mk> void ops(const char* nm, size_t dims, nh::Rng& r, Mk mk) {
    size_t n = r.below(20);
    D d = mk(n, dims);
    std::vector<std::vector<T>> m(n, std::vector<T>(dims));
    std::string h;
    auto put = [&](size_t i) {
        std::vector<T> v(dims);
        for (auto& x : v) x = val<T>(r);
        m[i] = v;
        if (r.below(2)) d.set_datum(i, v); else d.set_datum(i, std::span<const T>(v));
    };
    nh::begin(nm, nh::str("size", n, "dims", dims, "fill"));
    for (size_t i = 0; i < n; ++i) put(n - 1 - i);
    same(d, m, dims);
    for (int s = 0; s < 25; ++s) {
        int op = r.below(10);
        if (op < 5 && n) {
            size_t i = r.below(n);
            h += " set " + std::to_string(i);
            nh::begin(nm, nh::str("dims", dims, "history", h));
            put(i);
        } else if (op < 8) {
            size_t k = r.below(3) ? r.below(40) : r.below(n + 2);
            h += " resize " + std::to_string(k);
            nh::begin(nm, nh::str("dims", dims, "history", h));
            d.resize(k);
            size_t old = n;
            m.resize(k, std::vector<T>(dims));
            n = k;
            nh::check(d.capacity() >= d.size(), "capacity covers the size");
            for (size_t i = old; i < k; ++i) put(i);
        } else if (op == 8) {
            h += " shrink";
            nh::begin(nm, nh::str("dims", dims, "history", h));
            d.shrink_to_fit();
        } else if (n) {
            // write through the mutable row
            size_t i = r.below(n), j = r.below(dims);
            h += " poke " + std::to_string(i) + "," + std::to_string(j);
            nh::begin(nm, nh::str("dims", dims, "history", h));
            T x = val<T>(r);
            d.get_datum(i)[j] = x;
            m[i][j] = x;
        }
        same(d, m, dims);
    }
    if constexpr (std::is_copy_constructible_v<D>) {
        nh::begin(nm, nh::str("dims", dims, "copy; history", h));
        D c(d);
        same(c, m, dims);
        if (n) { c.get_datum(0)[0] = T(3); }
        same(d, m, dims);
        D e = mk(1, dims);
        e = d;
        same(e, m, dims);
        D f(std::move(e));
        same(f, m, dims);
    }
    if constexpr (requires { d.copy(); }) {
        nh::begin(nm, nh::str("dims", dims, "copy(); history", h));
        auto c = d.copy();
        same(c, m, dims);
    }
    if constexpr (requires { d.view(); }) {
        nh::begin(nm, nh::str("dims", dims, "view; history", h));
        same(d.view(), m, dims);
        same(d.cview(), m, dims);
        nh::check(std::as_const(d) == d.cview(), "a dataset equals its view");
    }
    nh::begin(nm, nh::str("dims", dims, "data::copy; history", h));
    data::SimpleData<T> o(n, dims);
    data::copy(d, o);
    same(o, m, dims);
}
template <class T> void dense() {
    nh::Rng r(nh::seed * 3 + sizeof(T));
    for (int ep = 0; ep < (nh::thorough ? 400 : 40); ++ep) {
        size_t dims = 1 + r.below(11);
        ops<T, data::SimpleData<T>>("simple_data", dims, r, [](size_t n, size_t d) { return data::SimpleData<T>(n, d); });
        ops<T, data::SimpleData<T, 5>>("simple_data_static", 5, r, [](size_t n, size_t d) { return data::SimpleData<T, 5>(n, d); });
    }
}
template <class T> void blockd() {
    nh::Rng r(nh::seed * 5 + sizeof(T));
    using B = data::Blocked<lib::Allocator<T>>;
    for (int ep = 0; ep < (nh::thorough ? 400 : 60); ++ep) {
        size_t dims = 1 + r.below(9);
        size_t lg = 0;
        while ((size_t(1) << lg) < dims * sizeof(T)) ++lg;
        data::BlockingParameters p{lib::PowerOfTwo(lg + r.below(5))};
        ops<T, data::BlockedData<T>>("blocked_data", dims, r, [p](size_t n, size_t d) { return data::BlockedData<T>(n, d, B(p)); });
        ops<T, data::BlockedData<T, 6>>("blocked_data_static", 6, r, [lg](size_t n, size_t d) { return data::BlockedData<T, 6>(n, d, B(data::BlockingParameters{lib::PowerOfTwo(lg + 5)})); });
        data::BlockedData<T> b(r.below(50), dims, B(p));
        nh::begin("blocked_resolve", nh::str("dims", dims, "log block bytes", p.blocksize_bytes.raw(), "size", b.size()));
        for (size_t i = 0; i < 200; ++i) { auto [x, y] = b.resolve(i); nh::check(x * b.blocksize().value() + y == i && y < b.blocksize().value(), "resolve is the division by the block size"); }
        nh::check(b.blocksize().value() * dims * sizeof(T) <= p.blocksize_bytes.value(), "a block respects the configured byte size");
    }
}
void wrong_size() {
    data::SimpleData<float> d(3, 4);
    for (size_t k = 0; k < 9; ++k) {
        nh::begin("set_datum_size", nh::str("dims 4, vector of", k));
        std::vector<float> v(k, 1.0f);
        bool t = false;
        try { d.set_datum(1, v); } catch (const ANNException&) { t = true; }
        nh::check(t == (k != 4), "a vector of the wrong length is rejected");
    }
    data::SimpleData<Float16> h(2, 3);
    data::SimpleData<int8_t> b(2, 3);
    nh::Rng r(nh::seed);
    for (int k = 0; k < 500; ++k) {
        std::vector<float> v{float(r.range(-64, 64)) / 8, float(r.range(-64, 64)) / 8, float(r.range(-100, 100))};
        nh::begin("set_datum_convert", nh::str(nh::list(v)));
        h.set_datum(1, v);
        for (int j = 0; j < 3; ++j) nh::check(float(h.get_datum(1)[j]) == v[j], "conversion to half keeps representable values");
        std::vector<int> w{(int)r.range(-300, 300), (int)r.range(-128, 127), (int)r.range(-128, 127)};
        nh::begin("set_datum_convert", nh::str(nh::list(w)));
        bool t = false;
        try { b.set_datum(0, w); } catch (const lib::narrowing_error&) { t = true; }
        nh::check(t == (w[0] < -128 || w[0] > 127), "a component that does not fit is rejected");
        if (!t) for (int j = 0; j < 3; ++j) nh::check(b.get_datum(0)[j] == w[j], "conversion keeps representable values");
    }
}
void arrays() {
    nh::Rng r(nh::seed * 11);
    for (int ep = 0; ep < 200; ++ep) {
        size_t a = 1 + r.below(5), b = 1 + r.below(5), c = 1 + r.below(5);
        auto x = DenseArray<int, std::tuple<size_t, size_t, size_t>>(make_dims(a, b, c));
        nh::begin("dense_array", nh::str("dims", a, b, c));
        nh::check(x.size() == a * b * c, "size is the product of the dimensions");
        int v = 0;
        for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) for (size_t k = 0; k < c; ++k) x.at(i, j, k) = v++;
        for (int q = 0; q < v; ++q) nh::check(x.data()[q] == q, "row-major layout");
        for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) {
            auto s = x.slice(i, j);
            nh::check(s.size() == c, "slice length");
            for (size_t k = 0; k < c; ++k) nh::check(&s[k] == &x.at(i, j, k), "slice elements");
        }
        nh::check(x.first() == 0 && x.last() == v - 1, "first and last");
        auto y = x;
        y.at(0, 0, 0) = 77;
        nh::check(x.at(0, 0, 0) == 0 && y.last() == x.last(), "copies are independent");
        auto z = std::move(y);
        nh::check(z.at(0, 0, 0) == 77 && z.size() == x.size(), "move keeps the contents");
        z = x;
        nh::check(std::equal(z.begin(), z.end(), x.begin()), "copy assignment");
        auto st = DenseArray<int, std::tuple<size_t, lib::Val<4>>>(make_dims(a, lib::Val<4>()));
        for (size_t i = 0; i < a; ++i) for (size_t k = 0; k < 4; ++k) st.at(i, k) = int(10 * i + k);
        for (size_t i = 0; i < a; ++i) for (size_t k = 0; k < 4; ++k) nh::check(st.slice(i)[k] == int(10 * i + k) && st.data()[4 * i + k] == int(10 * i + k), "static last dimension");
    }
}
int main(int argc, char** argv) {
    return nh::run(argc, argv, {dense<float>, dense<int8_t>, dense<uint32_t>, dense<Float16>, blockd<float>, blockd<uint8_t>, blockd<uint32_t>, wrong_size, arrays});
}
