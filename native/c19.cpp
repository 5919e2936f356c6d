// Histories of the dynamic index against a model: a map from live ids to vectors.
#include "nh.h"
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/dynamic_index.h"
#include <filesystem>
using namespace svs;
using namespace svs::index::vamana;
using Data = data::BlockedData<float>;
using Vec = std::vector<float>;
static int scratch_no = 0;
// the blocked graph of the library, with small blocks
struct SmallGraph : graphs::SimpleGraphBase<uint32_t, data::BlockedData<uint32_t>> {
    using parent_type = graphs::SimpleGraphBase<uint32_t, data::BlockedData<uint32_t>>;
    SmallGraph(size_t max_degree, size_t n) : parent_type(n, max_degree, data::Blocked<lib::Allocator<uint32_t>>(data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(8)})) {}
    explicit SmallGraph(data_type d) : parent_type(std::move(d)) {}
    explicit SmallGraph(parent_type&& p) : parent_type(std::move(p)) {}
    void unsafe_resize(size_t n) { parent_type::data_.resize(n); }
    static SmallGraph load(const lib::LoadTable& table) { return parent_type::load(table, lib::Lazy([](data_type d) { return SmallGraph(std::move(d)); })); }
    static SmallGraph load(const std::filesystem::path& path) { return lib::load_from_disk<SmallGraph>(path); }
};
template <class Dist, class GraphT> struct History {
    using Index = MutableVamanaIndex<GraphT, Data, Dist>;
    nh::Rng& r;
    size_t dims, nt, deg, prune_to, window, pool;
    float alpha;
    size_t idspace;
    std::map<size_t, Vec> live;
    std::map<size_t, size_t> slot; // id -> internal id
    std::set<size_t> dead, empty;  // internal ids
    std::unique_ptr<Index> ix;
    std::string log;
    Vec vec() { Vec v(dims); for (auto& x : v) x = (float)r.range(-100000, 100000) / 1024.f; return v; }
    float d(const Vec& a, const Vec& b) { Dist f; std::span<const float> x(a), y(b); distance::maybe_fix_argument(f, x); return distance::compute(f, x, y); }
    std::vector<size_t> fresh(size_t m) {
        std::vector<size_t> ids;
        for (size_t k = 0; k < 50 * m && ids.size() < m; ++k) { size_t e = r.below(idspace); if (!live.count(e) && std::find(ids.begin(), ids.end(), e) == ids.end()) ids.push_back(e); }
        return ids;
    }
    data::SimpleData<float> points(const std::vector<Vec>& v) {
        data::SimpleData<float> p(v.size(), dims);
        for (size_t i = 0; i < v.size(); ++i) p.set_datum(i, std::span<const float>(v[i]));
        return p;
    }
    void note(const std::string& s) { log += s + "; "; nh::cur_desc = nh::str("dims", dims, "threads", nt, "degree", deg, "prune_to", prune_to, "window", window, "pool", pool, "alpha", alpha, "history", log, "seed", nh::seed); }
    bool build(size_t n) {
        auto ids = fresh(n);
        Data d(ids.size(), dims, data::Blocked<lib::Allocator<float>>(data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(5 + r.below(5))}));
        for (size_t i = 0; i < ids.size(); ++i) { auto v = vec(); d.set_datum(i, std::span<const float>(v)); live[ids[i]] = v; slot[ids[i]] = i; }
        note(nh::str("build", nh::list(ids)));
        ix = std::make_unique<Index>(VamanaBuildParameters{alpha, deg, window, pool, prune_to, r.below(2) == 1}, std::move(d), ids, Dist(), nt);
        return true;
    }
    void add() {
        bool none = r.below(10) == 0;  // nothing to add is no change
        auto ids = none ? decltype(fresh(1))() : fresh(1 + r.below(6));
        if (ids.empty() && !none) return;
        std::vector<Vec> vs;
        for (auto e : ids) (void)e, vs.push_back(vec());
        bool bad = !none && r.below(6) == 0;
        if (bad && r.below(2) && !live.empty()) { auto it = live.begin(); std::advance(it, r.below(live.size())); ids[r.below(ids.size())] = it->first; }
        else if (bad && ids.size() > 1) ids.back() = ids.front();
        else if (bad) { ids.push_back(idspace); }
        note(nh::str(bad ? "try to add" : "add", nh::list(ids)));
        auto p = points(vs);
        bool threw = false;
        std::vector<size_t> s;
        try { s = ix->add_points(p, ids); } catch (const std::exception& e) { threw = true; }
        nh::check(threw == bad, bad ? "adding ids that exist, repeat or do not match the points is accepted" : "adding points fails");
        if (threw) {
            // room may have been made, but nothing observable changes
            for (size_t i = slot_count; i < ix->status_.size(); ++i) empty.insert(i);
            slot_count = ix->status_.size();
            return;
        }
        nh::check(s.size() == ids.size(), "not one slot per point");
        std::vector<size_t> want(empty.begin(), empty.end());
        for (size_t i = slot_count; want.size() < ids.size(); ++i) want.push_back(i);
        want.resize(std::min(want.size(), ids.size()));
        nh::check(std::set<size_t>(s.begin(), s.end()) == std::set<size_t>(want.begin(), want.end()), nh::str("slots", nh::list(s), "are used instead of", nh::list(want)));
        for (size_t i = 0; i < std::min(s.size(), ids.size()); ++i) { live[ids[i]] = vs[i]; slot[ids[i]] = s[i]; empty.erase(s[i]); slot_count = std::max(slot_count, s[i] + 1); }
    }
    size_t slot_count = 0;
    void remove() {
        if (live.size() <= 2) return;
        std::vector<size_t> ids;
        size_t m = 1 + r.below(std::min<size_t>(live.size() - 2, 8));
        bool ep = r.below(4) == 0;
        for (auto& [e, s] : slot) if (ep && s == ix->entry_point_[0]) ids.push_back(e);
        for (auto& [e, v] : live) if (ids.size() < m && r.below(live.size()) < m && std::find(ids.begin(), ids.end(), e) == ids.end()) ids.push_back(e);
        if (ids.empty()) return;
        bool bad = r.below(6) == 0;
        if (bad) { size_t e; do e = r.below(idspace + 1); while (live.count(e)); ids.insert(ids.begin() + r.below(ids.size() + 1), e); }
        note(nh::str(bad ? "try to delete" : "delete", nh::list(ids)));
        bool threw = false;
        try { ix->delete_entries(ids); } catch (const std::exception&) { threw = true; }
        nh::check(threw == bad, bad ? "deleting an unknown id is accepted" : "deleting ids fails");
        if (!threw) for (auto e : ids) { dead.insert(slot[e]); slot.erase(e); live.erase(e); }
    }
    void consolidate() {
        note("consolidate");
        ix->consolidate();
        for (auto s : dead) empty.insert(s);
        dead.clear();
    }
    void compact() {
        if (!dead.empty()) return;
        uint32_t b = r.below(3) ? 1 + r.below(live.size() + 3) : 1000;
        note(nh::str("compact", b));
        std::map<size_t, size_t> by;
        for (auto& [e, s] : slot) by[s] = e;
        uint32_t ep = ix->entry_point_.at(0);
        ix->compact(b);
        size_t rank = 0;
        for (auto& [s, e] : by) rank += s < ep;
        if (by.count(ep)) nh::check(ix->entry_point_.at(0) == rank, "compaction moves the entry point to another vector");
        size_t k = 0;
        for (auto& [s, e] : by) slot[e] = k++;
        empty.clear();
        slot_count = k;
    }
    void reload() {
        note("save and load");
        auto dir = std::filesystem::absolute("c19-" + std::to_string(getpid()) + "-" + std::to_string(scratch_no++));
        std::filesystem::create_directories(dir);
        ix->save(dir / "config", dir / "graph", dir / "data");
        auto old = std::make_tuple(ix->get_alpha(), ix->get_max_candidates(), ix->prune_to_, ix->get_construction_window_size(), ix->get_full_search_history(), ix->max_degree());
        dead.clear();
        std::map<size_t, size_t> by;
        for (auto& [e, s] : slot) by[s] = e;
        size_t k = 0;
        for (auto& [s, e] : by) slot[e] = k++;
        empty.clear();
        slot_count = k;
        auto g = [&] { return GraphT::load(dir / "graph"); };
        auto l = [&] { return Data::load(dir / "data"); };
        ix = std::make_unique<Index>(auto_dynamic_assemble(dir / "config", lib::Lazy(g), lib::Lazy(l), Dist(), nt));
        auto now = std::make_tuple(ix->get_alpha(), ix->get_max_candidates(), ix->prune_to_, ix->get_construction_window_size(), ix->get_full_search_history(), ix->max_degree());
        nh::check(old == now, "parameters change when the index is saved and loaded");
        std::filesystem::remove_all(dir);
    }
    void check() {
        auto& x = *ix;
        nh::check(x.size() == live.size(), nh::str("the size is", x.size(), "instead of", live.size()));
        auto got = x.external_ids();
        nh::check(got.size() == live.size() && std::all_of(got.begin(), got.end(), [&](size_t e) { return live.count(e); }), nh::str("the ids are", nh::list(got)));
        for (size_t e = 0; e <= idspace; ++e) nh::check(x.has_id(e) == (live.count(e) == 1), nh::str("has_id of", e, "is wrong"));
        for (auto& [e, v] : live) {
            if (!x.has_id(e)) continue;
            auto w = x.get_datum(e);
            nh::check(std::equal(v.begin(), v.end(), w.begin(), w.end()), nh::str("the vector of", e, "changed"));
            size_t i = x.translate_external_id(e);
            nh::check(i == slot[e] && x.translate_internal_id(i) == e, nh::str("id", e, "is at", i, "instead of", slot[e]));
        }
        size_t n = x.status_.size();
        nh::check(n == x.data_.size() && n == x.graph_.n_nodes() && n == slot_count, nh::str("tables have", n, x.data_.size(), x.graph_.n_nodes(), "entries instead of", slot_count));
        std::set<size_t> vs;
        for (auto& [e, s] : slot) vs.insert(s);
        for (size_t i = 0; i < n; ++i) {
            auto want = vs.count(i) ? SlotMetadata::Valid : dead.count(i) ? SlotMetadata::Deleted : SlotMetadata::Empty;
            nh::check(x.status_[i] == want, nh::str("slot", i, "is", std::string(name(x.status_[i])), "instead of", std::string(name(want))));
            if (want == SlotMetadata::Empty) continue;
            std::set<uint32_t> seen;
            for (auto j : x.graph_.get_node(i)) {
                nh::check(j < n && j != i && seen.insert(j).second, nh::str("slot", i, "lists", j, "out of range, twice or itself"));
                if (want == SlotMetadata::Valid) nh::check(j < n && (vs.count(j) || dead.count(j)), nh::str("slot", i, "lists the empty slot", j));
            }
            nh::check(seen.size() <= deg, nh::str("slot", i, "has too many neighbors"));
        }
        uint32_t ep = x.entry_point_.at(0);
        nh::check(ep < n && (vs.count(ep) || dead.count(ep)), "the entry point is an empty slot");
        // reachable slots
        std::vector<uint32_t> q{ep};
        std::set<uint32_t> reach{ep};
        for (size_t h = 0; h < q.size(); ++h) for (auto j : x.graph_.get_node(q[h])) if (reach.insert(j).second) q.push_back(j);
        std::map<size_t, size_t> back;
        for (auto& [e, s] : slot) back[s] = e;
        std::vector<size_t> cand;
        for (auto j : reach) if (back.count(j)) cand.push_back(back[j]);
        size_t nq = 1 + r.below(4);
        std::vector<Vec> qs;
        for (size_t i = 0; i < nq; ++i) qs.push_back(r.below(3) || live.empty() ? vec() : std::next(live.begin(), r.below(live.size()))->second);
        auto queries = points(qs);
        distance::compare_t<Dist> cmp;
        for (int mode = 0; mode < 2; ++mode) {
            size_t lim = cand.size();
            if (!lim) continue;
            size_t k = 1 + r.below(lim);
            QueryResult<size_t> res(nq, k);
            bool exact = mode != 1;
            {
                size_t w = mode == 0 ? n + 1 : k + r.below(4);
                VamanaSearchParameters sp;
                sp.buffer_config_ = SearchBufferConfig(w, w + r.below(3));
                x.search(res.view(), queries, sp);
            }
            for (size_t i = 0; i < nq; ++i) {
                std::vector<float> want;
                for (auto& [e, v] : live) if (reach.count(slot[e])) want.push_back(d(qs[i], v));
                std::sort(want.begin(), want.end(), cmp);
                std::set<size_t> seen;
                for (size_t j = 0; j < k; ++j) {
                    size_t e = res.index(i, j);
                    float f = res.distance(i, j);
                    if (!live.count(e)) {
                        // a narrow search may meet fewer than k live vectors
                        nh::check(mode == 1, nh::str("search returns", e, "which is not in the index (mode", mode, "position", j, "of", k, ")"));
                        continue;
                    }
                    if (mode == 1) continue;
                    nh::check(seen.insert(e).second, nh::str("search returns", e, "twice"));
                    nh::check(f == d(qs[i], live[e]) || std::abs(f - d(qs[i], live[e])) <= 1e-4f * std::abs(f), nh::str("search returns a wrong distance for", e));
                    if (exact) nh::check(std::abs(f - want[j]) <= 1e-4f * std::max(1.f, std::abs(f)), nh::str("position", j, "of", k, "has distance", f, "instead of", want[j], "mode", mode));
                }
            }
        }
        std::vector<size_t> ask;
        for (auto& [e, v] : live) if (r.below(2)) ask.push_back(e);
        if (!ask.empty()) {
            data::SimpleData<float> out(ask.size(), dims);
            x.reconstruct_at(data::SimpleDataView<float>(out.data(), ask.size(), dims), std::span<const size_t>(ask));
            for (size_t i = 0; i < ask.size(); ++i) { auto w = out.get_datum(i); nh::check(std::equal(w.begin(), w.end(), live[ask[i]].begin()), nh::str("reconstructing", ask[i], "gives another vector")); }
        }
    }
};
template <class Dist, class GraphT = SmallGraph> void go(const char* nm, nh::Rng& r, size_t n, size_t steps, float alpha) {
    History<Dist, GraphT> h{r};
    h.dims = 1 + r.below(5), h.nt = 1 + r.below(3), h.deg = 3 + r.below(8), h.prune_to = h.deg - r.below(3), h.window = 4 + r.below(12), h.pool = h.window + 4 + r.below(20), h.alpha = alpha;
    h.idspace = n + 30;
    nh::begin(nm, nh::str("n", n, "steps", steps, "state", r.s, "seed", nh::seed));
    try {
        h.build(n);
        h.slot_count = n;
        h.check();
        for (size_t i = 0; i < steps; ++i) {
            switch (r.below(8)) {
                case 0: case 1: case 2: h.add(); break;
                case 3: case 4: h.remove(); break;
                case 5: h.consolidate(); break;
                case 6: h.compact(); break;
                default: if (r.below(3) == 0) h.reload(); else h.add();
            }
            h.check();
        }
    } catch (const std::exception& e) { nh::fail(std::string("unexpected exception: ") + e.what()); }
}
int main(int c, char** v) {
    return nh::run(c, v, {[] {
        nh::Rng r(nh::seed * 13 + 7);
        size_t reps = nh::thorough ? 80 : 8;
        for (size_t rep = 0; rep < reps; ++rep) for (size_t n : {3, 5, 12, 40}) {
            go<distance::DistanceL2>("history L2", r, n, 25, 1.2f);
            go<distance::DistanceIP>("history IP", r, n, 25, 0.95f);
        }
        for (size_t n : {4, 20}) go<distance::DistanceL2, graphs::SimpleBlockedGraph<uint32_t>>("history L2 (library graph)", r, n, 12, 1.2f);
    }});
}
