// Compaction of a dataset (core/compact.h) over datasets of opaque vectors.
#include "common.h"
#include "svs/core/data/simple.h"
#include "svs/core/compact.h"
using namespace svs;
struct Vec { size_t v; };
struct Vecs {
    using value_type = Vec;
    using const_value_type = Vec;
    size_t* p;
    size_t n, dims;
    size_t size() const { return n; }
    size_t dimensions() const { return dims; }
    Vec get_datum(size_t i) const { return Vec{p[i]}; }
    void set_datum(size_t i, Vec v) { p[i] = v.v; }
    void prefetch(size_t) const {}
};
VP_OFFSET(v_p, Vecs, p)
VP_OFFSET(v_n, Vecs, n)
VP_OFFSET(v_dims, Vecs, dims)
VP_CONST(v_sizeof, sizeof(Vecs))
extern "C" {
void vp_compact(Vecs& d, Vecs& b, const uint32_t* m, size_t n) { threads::SequentialThreadPool p; compact_data(d, b, std::span<const uint32_t>(m, n), p); }
void vp_compact64(Vecs& d, Vecs& b, const size_t* m, size_t n) { threads::SequentialThreadPool p; compact_data(d, b, std::span<const size_t>(m, n), p); }
}
