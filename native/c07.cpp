// Exhaustive search against brute force: every batch size, thread count, predicate and tie.
#include "nh.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/index/flat/flat.h"
using namespace svs;
using namespace svs::index::flat;
template <class D> float ref(const std::vector<float>& q, const std::vector<float>& x) {
    double ip = 0, l2 = 0, nx = 0, nq = 0;
    for (size_t i = 0; i < q.size(); ++i) { ip += (double)q[i] * x[i]; l2 += ((double)q[i] - x[i]) * ((double)q[i] - x[i]); nx += (double)x[i] * x[i]; nq += (double)q[i] * q[i]; }
    if (std::is_same_v<D, distance::DistanceL2>) return l2;
    if (std::is_same_v<D, distance::DistanceIP>) return ip;
    return ip / (std::sqrt(nx) * std::sqrt(nq));
}
struct P {
    size_t mod, rem;
    bool operator()(size_t i) const { return i % mod >= rem; }
};
template <class T, class D> void go(const char* nm, nh::Rng& r, size_t n, size_t dims, size_t nq, size_t k, size_t db, size_t qb, size_t nt, P pred, size_t levels) {
    D dist;
    auto data = data::SimpleData<T>(n, dims);
    auto queries = data::SimpleData<float>(nq, dims);
    std::vector<std::vector<float>> X(n), Q(nq);
    auto fill = [&](std::vector<float>& v) { v.resize(dims); for (auto& x : v) x = (float)r.below(levels) - (std::is_same_v<T, uint8_t> ? 0 : (float)(levels / 2)); if (std::all_of(v.begin(), v.end(), [](float f) { return f == 0; })) v[0] = 1; };
    for (size_t i = 0; i < n; ++i) { fill(X[i]); std::vector<T> t(X[i].begin(), X[i].end()); data.set_datum(i, std::span<const T>(t.data(), dims)); }
    for (size_t i = 0; i < nq; ++i) { fill(Q[i]); queries.set_datum(i, std::span<const float>(Q[i].data(), dims)); }
    nh::begin(nm, nh::str("n", n, "dims", dims, "queries", nq, "k", k, "data_batch", db, "query_batch", qb, "threads", nt, "pred", pred.mod, pred.rem, "seed", nh::seed));
    auto index = FlatIndex(std::move(data), dist, threads::NativeThreadPool(nt));
    nh::check(index.size() == n && index.dimensions() == dims && index.get_num_threads() == nt, "index reports its size, dimensions and threads");
    for (int rep = 0; rep < 2; ++rep) {
        QueryResult<size_t> res(nq, k);
        for (size_t i = 0; i < nq; ++i) for (size_t j = 0; j < k; ++j) { res.index(i, j) = 123456789; res.distance(i, j) = -77; }
        FlatParameters p(db, qb);
        bool all = pred.rem == 0;
        if (all) index.search(res.view(), queries.cview(), p); else index.search(res.view(), queries.cview(), p, pred);
        distance::compare_t<D> cmp;
        for (size_t i = 0; i < nq; ++i) {
            std::vector<float> want;
            for (size_t x = 0; x < n; ++x) if (pred(x)) want.push_back(ref<D>(Q[i], X[x]));
            std::sort(want.begin(), want.end(), cmp);
            std::set<size_t> seen;
            size_t m = std::min(k, want.size());
            for (size_t j = 0; j < m; ++j) {
                size_t id = res.index(i, j);
                float d = res.distance(i, j);
                if (!nh::check(id < n, nh::str("query", i, "slot", j, "holds the invalid id", id))) break;
                nh::check(pred(id), nh::str("query", i, "slot", j, "id", id, "does not satisfy the predicate"));
                nh::check(seen.insert(id).second, nh::str("query", i, "id", id, "returned twice"));
                float tol = 1e-4f * (1 + std::fabs(want[j]));
                nh::check(std::fabs(d - want[j]) <= tol, nh::str("query", i, "slot", j, "distance", d, "but the exact", j, "-th best is", want[j]));
                nh::check(std::fabs(d - ref<D>(Q[i], X[id])) <= tol, nh::str("query", i, "slot", j, "distance", d, "is not the distance of id", id, "which is", ref<D>(Q[i], X[id])));
            }
            for (size_t j = m; j < k; ++j) nh::check(!cmp(res.distance(i, j), cmp(1.f, 2.f) ? std::numeric_limits<float>::max() : std::numeric_limits<float>::lowest()), nh::str("query", i, "slot", j, "is beyond the matches but holds distance", res.distance(i, j)));
        }
        if (rep == 0 && nt > 1) { index.set_num_threads(nt - 1); index.set_search_parameters(p); nh::check(index.get_search_parameters().data_batch_size_ == db, "search parameters are kept"); }
    }
}
template <class T, class D> void sweep(const char* nm, uint64_t salt) {
    nh::Rng r(nh::seed * 31 + salt);
    for (size_t n : {0, 1, 2, 5, 17, 64}) for (size_t k : {1, 3, 10}) for (size_t db : {0, 1, 2, 16, 17, 63, 64, 65, 1000}) {
        if (db > n + 10 && db != 1000) continue;
        go<T, D>(nm, r, n, 1 + r.below(5), 1 + r.below(5), k, db, r.below(7), 1 + r.below(4), P{3, r.below(3)}, 2 + r.below(6));
    }
    for (int it = 0; it < (nh::thorough ? 1500 : 150); ++it)
        go<T, D>(nm, r, r.below(200), 1 + r.below(40), 1 + r.below(20), 1 + r.below(30), r.below(250), r.below(25), 1 + r.below(6), P{1 + r.below(7), r.below(2)}, 2 + r.below(60));
}
void all() {
    sweep<float, distance::DistanceL2>("flat L2 float", 1);
    sweep<float, distance::DistanceIP>("flat IP float", 2);
    sweep<float, distance::DistanceCosineSimilarity>("flat cosine float", 3);
    sweep<int8_t, distance::DistanceL2>("flat L2 int8", 4);
    sweep<uint8_t, distance::DistanceIP>("flat IP uint8", 5);
}
void batches() {  // more points than the default data batch
    nh::Rng r(nh::seed + 5);
    go<float, distance::DistanceL2>("flat default batch", r, 100'001, 2, 2, 5, 0, 0, 4, P{1, 0}, 50);
    go<float, distance::DistanceL2>("flat default batch", r, 200'003, 1, 1, 3, 0, 0, 2, P{2, 1}, 30);
}
template <class Cmp> void linear(const char* nm) {
    nh::Rng r(nh::seed + 77);
    for (int it = 0; it < 400; ++it) {
        size_t k = 1 + r.below(8), m = r.below(30);
        std::vector<Neighbor<size_t>> a(k), b(k);
        LinearInserter li{a.begin(), a.end(), Cmp{}};
        HeapInserter hi{b.begin(), b.end(), Cmp{}};
        li.prepare(); hi.prepare();
        std::vector<float> in;
        for (size_t i = 0; i < m; ++i) in.push_back(r.below(10));
        nh::begin(nm, nh::str("k", k) + nh::list(in));
        for (size_t i = 0; i < m; ++i) { li.insert({i, in[i]}); hi.insert({i, in[i]}); }
        li.cleanup(); hi.cleanup();
        auto w = in;
        std::sort(w.begin(), w.end(), Cmp{});
        for (size_t j = 0; j < std::min(k, m); ++j) {
            nh::check(a[j].distance() == w[j], nh::str("linear inserter slot", j));
            nh::check(b[j].distance() == w[j], nh::str("heap inserter slot", j));
            nh::check(a[j].id() < m && in[a[j].id()] == a[j].distance() && b[j].id() < m && in[b[j].id()] == b[j].distance(), "id and distance belong together");
        }
    }
}
void inserters() { linear<std::less<>>("inserters less"); linear<std::greater<>>("inserters greater"); }
int main(int argc, char** argv) { return nh::run(argc, argv, {all, batches, inserters}); }
