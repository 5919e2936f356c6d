// C11: the id translation against a model (two ordered maps), over random histories.
#include "nh.h"
#include "svs/core/translation.h"
#include "svs/lib/saveload.h"
#include <list>
#include <map>
#include <deque>
#include <filesystem>
using namespace svs;
using T = IDTranslator;
struct Model {
    std::map<size_t, uint32_t> e2i;
    std::map<uint32_t, size_t> i2e;
};
static void same(const T& t, const Model& m, const std::vector<size_t>& es, const std::vector<uint32_t>& is) {
    nh::check(t.size() == m.e2i.size(), nh::str("size", t.size(), "expected", m.e2i.size()));
    for (auto e : es) {
        auto f = m.e2i.find(e);
        nh::check(t.has_external(e) == (f != m.e2i.end()), nh::str("has_external", e));
        if (f != m.e2i.end()) nh::check(t.has_external(e) && t.get_internal(e) == f->second, nh::str("get_internal", e));
        else nh::check(nh::throws([&] { t.get_internal(e); }), nh::str("get_internal of the unknown id", e));
    }
    for (auto i : is) {
        auto f = m.i2e.find(i);
        nh::check(t.has_internal(i) == (f != m.i2e.end()), nh::str("has_internal", i));
        if (f != m.i2e.end()) nh::check(t.has_internal(i) && t.get_external(i) == f->second, nh::str("get_external", i));
        else nh::check(nh::throws([&] { t.get_external(i); }), nh::str("get_external of the unknown id", i));
    }
    size_t c = 0;
    for (auto i = t.begin(), e = t.end(); i != e; ++i, ++c) nh::check(m.e2i.count(i->first) && m.e2i.at(i->first) == i->second, "iteration yields a pair that is not recorded");
    nh::check(c == m.e2i.size(), "iteration does not yield every pair");
}
template <class X> bool distinct(const X& x) { return std::set<size_t>(x.begin(), x.end()).size() == x.size(); }
static void history(int ep, nh::Rng& r) {
    // a small universe with ids at the borders of both types
    std::vector<size_t> es;
    std::vector<uint32_t> is;
    size_t u = 3 + r.below(ep % 5 == 0 ? 60 : 10);
    for (size_t i = 0; i < u; ++i) {
        es.push_back(i * (r.below(3) == 0 ? size_t(1) << 33 : 1) + r.below(2) * 1000);
        is.push_back(r.below(2) ? uint32_t(i) : uint32_t(-1) - uint32_t(i));
    }
    es.push_back(size_t(-1));
    es.push_back((size_t(1) << 32) + 1);
    std::string h;
    T t;
    Model m;
    auto pe = [&] { return es[r.below(es.size())]; };
    auto pi = [&] { return is[r.below(is.size())]; };
    for (int step = 0, n = 3 + r.below(12); step < n; ++step) {
        switch (r.below(7)) {
        case 0: case 1: case 2: {  // insert, mostly valid
            size_t k = r.below(6), k2 = r.below(12) ? k : r.below(6);
            std::vector<size_t> e;
            std::vector<uint32_t> i;
            for (int tries = 0; e.size() < k && tries < 100; ++tries) { auto x = pe(); if (r.below(25) == 0 || (!m.e2i.count(x) && std::find(e.begin(), e.end(), x) == e.end())) e.push_back(x); }
            for (int tries = 0; i.size() < k2 && tries < 100; ++tries) { auto x = pi(); if (r.below(25) == 0 || (!m.i2e.count(x) && std::find(i.begin(), i.end(), x) == i.end())) i.push_back(x); }
            bool ok = e.size() == i.size() && distinct(e) && distinct(i);
            for (auto x : e) ok = ok && !m.e2i.count(x);
            for (auto x : i) ok = ok && !m.i2e.count(x);
            bool check = !ok || r.below(3);
            h += nh::str(" insert", nh::list(e), nh::list(i), check);
            nh::begin("history", nh::str("episode", ep) + h);
            bool thrown;
            switch (r.below(3)) {
            case 0: thrown = nh::throws([&] { t.insert(e, i, check); }); break;
            case 1: { std::list<size_t> a(e.begin(), e.end()); std::deque<uint64_t> b(i.begin(), i.end()); thrown = nh::throws([&] { t.insert(a, b, check); }); break; }
            default: thrown = nh::throws([&] { t.insert(e.data(), e.data() + e.size(), i.begin(), i.end(), check); });
            }
            nh::check(thrown == !ok, thrown ? "a valid insertion is refused" : "an invalid insertion is accepted");
            if (ok) for (size_t j = 0; j < e.size(); ++j) { m.e2i[e[j]] = i[j]; m.i2e[i[j]] = e[j]; }
            break;
        }
        case 3: {  // delete by external id
            std::vector<size_t> e;
            for (auto& x : m.e2i) if (r.below(3) == 0) e.push_back(x.first);
            if (r.below(8) == 0) { auto x = pe(); if (std::find(e.begin(), e.end(), x) == e.end()) e.insert(e.begin() + r.below(e.size() + 1), x); }
            bool ok = true;
            for (auto x : e) ok = ok && m.e2i.count(x);
            bool check = !ok || r.below(3);
            h += nh::str(" delete_external", nh::list(e), check);
            nh::begin("history", nh::str("episode", ep) + h);
            nh::check(nh::throws([&] { t.delete_external(e, check); }) == !ok, "deletion accepted or refused wrongly");
            if (ok) for (auto x : e) { m.i2e.erase(m.e2i.at(x)); m.e2i.erase(x); }
            break;
        }
        case 4: {
            std::vector<uint32_t> e;
            for (auto& x : m.i2e) if (r.below(3) == 0) e.push_back(x.first);
            if (r.below(8) == 0) { auto x = pi(); if (std::find(e.begin(), e.end(), x) == e.end()) e.insert(e.begin() + r.below(e.size() + 1), x); }
            bool ok = true;
            for (auto x : e) ok = ok && m.i2e.count(x);
            bool check = !ok || r.below(3);
            h += nh::str(" delete_internal", nh::list(e), check);
            nh::begin("history", nh::str("episode", ep) + h);
            nh::check(nh::throws([&] { t.delete_internal(e, check); }) == !ok, "deletion accepted or refused wrongly");
            if (ok) for (auto x : e) { m.e2i.erase(m.i2e.at(x)); m.i2e.erase(x); }
            break;
        }
        case 5: {
            if (m.i2e.empty()) break;
            auto it = m.i2e.begin();
            std::advance(it, r.below(m.i2e.size()));
            auto a = it->first;
            auto b = pi();
            if (m.i2e.count(b)) break;
            h += nh::str(" remap", a, b);
            nh::begin("history", nh::str("episode", ep) + h);
            t.remap_internal_id(a, b);
            auto e = m.i2e[a];
            m.i2e.erase(a);
            m.i2e[b] = e;
            m.e2i[e] = b;
            break;
        }
        default: {
            if (r.below(4)) break;
            h += " save+load";
            nh::begin("history", nh::str("episode", ep) + h);
            std::filesystem::path d = std::filesystem::path(getenv("NH_SCRATCH") ? getenv("NH_SCRATCH") : ".") / nh::str("c11-", getpid(), "-", ep, "-", step);
            std::filesystem::create_directories(d);
            lib::save_to_disk(t, d);
            t = lib::load_from_disk<T>(d);
            std::filesystem::remove_all(d);
        }
        }
        same(t, m, es, is);
    }
}
static void histories() {
    nh::Rng r(nh::seed * 7 + 1);
    for (int ep = 0; ep < (nh::thorough ? 20000 : 1500); ++ep) history(ep, r);
}
static void unique() {
    nh::Rng r(nh::seed + 11);
    for (int ep = 0; ep < 4000; ++ep) {
        std::vector<uint32_t> v(r.below(ep < 2000 ? 6 : 60));
        for (auto& x : v) x = r.below(ep < 2000 ? 8 : 1000) + (r.below(2) ? 0xFFFFF000u : 0);
        nh::begin("all_unique", nh::list(v));
        nh::check(lib::all_unique(v.begin(), v.end()) == distinct(v), "wrong answer");
        nh::check(lib::ranges::all_unique(v) == distinct(v), "wrong answer for the range");
    }
}
// vectors of many ids at once
static void bulk() {
    for (size_t n : {1000ul, 70000ul}) {
        nh::begin("bulk", nh::str("pairs", n));
        T t;
        std::vector<size_t> e(n);
        std::vector<uint32_t> i(n);
        for (size_t j = 0; j < n; ++j) { e[j] = j * 4099 + 5; i[j] = uint32_t(n - 1 - j); }
        t.insert(e, i);
        nh::check(t.size() == n, "size");
        for (size_t j = 0; j < n; ++j) if (t.get_internal(e[j]) != i[j] || t.get_external(i[j]) != e[j]) { nh::fail(nh::str("pair", j)); break; }
        nh::check(nh::throws([&] { std::vector<size_t> a{1, e[n / 2]}; std::vector<uint32_t> b{uint32_t(n), uint32_t(n + 1)}; t.insert(a, b); }), "an existing external id is accepted");
        nh::check(nh::throws([&] { std::vector<size_t> a{1, 2}; std::vector<uint32_t> b{uint32_t(n), 7}; t.insert(a, b); }), "an existing internal id is accepted");
        nh::check(t.size() == n && !t.has_external(1) && !t.has_internal(uint32_t(n)), "a refused insertion changes the table");
        std::vector<size_t> half(e.begin(), e.begin() + n / 2);
        t.delete_external(half);
        for (size_t j = 0; j < n; ++j) if (t.has_external(e[j]) != (j >= n / 2) || t.has_internal(i[j]) != (j >= n / 2)) { nh::fail(nh::str("pair", j, "after deletion")); break; }
    }
}
int main(int argc, char** argv) { return nh::run(argc, argv, {histories, unique, bulk}); }
