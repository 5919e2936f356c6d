#include "common.h"
#include "svs/lib/threads.h"
using namespace svs::threads;
extern "C" void vp_body(size_t start, size_t stop, size_t first, size_t size, uint64_t tid) noexcept;
extern "C" void vp_task(uint64_t tid) noexcept;
struct Body {
    template <class R> void operator()(const R& r, uint64_t tid) const {
        auto u = UnitRange{r};
        vp_body(u.start(), u.stop(), *r.begin(), r.size(), tid);
    }
};
struct VBody {
    template <class R> void operator()(const R& r, uint64_t tid) const { vp_body(r.begin() - r.begin(), r.end() - r.begin(), *r.begin(), r.size(), tid); }
};
extern "C" {
void vp_balance(size_t n, size_t nt, size_t tid, size_t* out) {
    auto r = balance(n, nt, tid);
    out[0] = r.start();
    out[1] = r.stop();
    out[2] = r.size();
    out[3] = r.empty();
}
void vp_static(size_t n, size_t nt, uint64_t tid) {
    Body b;
    auto f = thunks::wrap(ThreadCount{nt}, b, StaticPartition{n});
    f(tid);
}
void vp_static_range(size_t start, size_t stop, size_t nt, uint64_t tid) {
    Body b;
    auto f = thunks::wrap(ThreadCount{nt}, b, StaticPartition{start, stop});
    f(tid);
}
void vp_static_u32(uint32_t n, size_t nt, uint64_t tid) {
    Body b;
    auto f = thunks::wrap(ThreadCount{nt}, b, StaticPartition{n});
    f(tid);
}
void vp_static_unit(const UnitRange<size_t>& r, size_t nt, uint64_t tid) {
    Body b;
    auto f = thunks::wrap(ThreadCount{nt}, b, StaticPartition<IndexIterator<size_t>>(r));
    f(tid);
}
void vp_dynamic(size_t n, size_t grain, size_t nt, uint64_t tid) {
    Body b;
    auto f = thunks::wrap(ThreadCount{nt}, b, DynamicPartition{n, grain});
    f(tid);
}
void vp_dynamic_range(size_t start, size_t stop, size_t grain, size_t nt, uint64_t tid) {
    Body b;
    auto f = thunks::wrap(ThreadCount{nt}, b, DynamicPartition{start, stop, grain});
    f(tid);
}
void vp_run_seq_static(size_t n) {
    SequentialThreadPool p;
    run(p, StaticPartition{n}, Body());
}
void vp_run_seq_plain() {
    SequentialThreadPool p;
    run(p, [](uint64_t tid) { vp_task(tid); });
}
size_t vp_unit_at(const UnitRange<size_t>& r, size_t i) { return r[i]; }
bool vp_unit_contains(const UnitRange<size_t>& r, size_t i) { return r.contains(i); }
bool vp_unit_contains_u32(const UnitRange<uint32_t>& r, uint32_t i) { return r.contains(i); }
void vp_unit_make(size_t a, size_t b, size_t* out) { UnitRange<size_t> r(a, b); out[0] = r.start(); out[1] = r.stop(); out[2] = r.size(); out[3] = r.empty(); }
void vp_unit_eachindex(const UnitRange<size_t>& r, size_t* out) { auto u = r.eachindex(); out[0] = u.start(); out[1] = u.stop(); }
}
VP_OFFSET(ur_start, UnitRange<size_t>, start_)
VP_OFFSET(ur_stop, UnitRange<size_t>, stop_)
VP_CONST(ur_sizeof, sizeof(UnitRange<size_t>))
VP_OFFSET(ur4_start, UnitRange<uint32_t>, start_)
VP_OFFSET(ur4_stop, UnitRange<uint32_t>, stop_)
