// SimpleGraphBase over an abstract dataset: rows come from vp_row, whose contract the units state.
#include "common.h"
#include "svs/core/data/simple.h"
#include "svs/core/graph/graph.h"
extern "C" {
uint32_t* vp_row(size_t i) noexcept;
void vp_touch(const void* p, size_t n) noexcept;
}
struct Rows {
    using element_type = uint32_t;
    using value_type = std::span<uint32_t>;
    using const_value_type = std::span<const uint32_t>;
    size_t n, d;
    Rows(size_t n_, size_t d_) : n{n_}, d{d_} {}
    size_t size() const { return n; }
    size_t dimensions() const { return d; }
    value_type get_datum(size_t i) { return {vp_row(i), d}; }
    const_value_type get_datum(size_t i) const { return {vp_row(i), d}; }
    void prefetch(size_t) const {}
    void set_datum(size_t, const_value_type) {}
};
using G = svs::graphs::SimpleGraphBase<uint32_t, Rows>;
using D = svs::data::SimpleData<float>;
using DU = svs::data::SimpleData<uint32_t>;
using DS = svs::data::SimpleData<float, 5>;
using B = svs::data::BlockedData<float>;
VP_OFFSET(g_n, G, data_.n)
VP_OFFSET(g_d, G, data_.d)
VP_OFFSET(g_max, G, max_degree_)
VP_CONST(g_sizeof, sizeof(G))
VP_OFFSET(d_ptr, D, data_.pointer_)
VP_OFFSET(d_dims, D, data_.dims_)
VP_OFFSET(d_size, D, size_)
VP_CONST(d_sizeof, sizeof(D))
VP_OFFSET(ds_ptr, DS, data_.pointer_)
VP_OFFSET(ds_dims, DS, data_.dims_)
VP_OFFSET(ds_size, DS, size_)
VP_CONST(ds_sizeof, sizeof(DS))
VP_OFFSET(b_bs, B, blocksize_)
VP_OFFSET(b_blocks, B, blocks_)
VP_OFFSET(b_dims, B, dimensions_)
VP_OFFSET(b_size, B, size_)
VP_CONST(b_sizeof, sizeof(B))
VP_CONST(b_array, sizeof(B::array_type))
// tuple<size_t, size_t> stores its elements in reverse order: ask the code itself
extern "C" {
size_t vp_dim0(const D& d) { return d.capacity(); }
size_t vp_dim1(const D& d) { return d.dimensions(); }
// graph
size_t vp_add_edge(G& g, uint32_t s, uint32_t t) { return g.add_edge(s, t); }
void vp_replace(G& g, uint32_t s, const uint32_t* p, size_t n) { g.replace_node(s, std::span<const uint32_t>(p, n)); }
const uint32_t* vp_get_node(const G& g, uint32_t s, size_t& n) { auto x = g.get_node(s); n = x.size(); return x.data(); }
size_t vp_degree(const G& g, uint32_t s) { return g.get_node_degree(s); }
bool vp_has_edge(const G& g, uint32_t s, uint32_t t) { return g.has_edge(s, t); }
void vp_clear_node(G& g, uint32_t s) { g.clear_node(s); }
void vp_reset(G& g) { g.reset(); }
size_t vp_nodes(const G& g) { return g.n_nodes(); }
size_t vp_maxdeg(const G& g) { return g.max_degree(); }
void vp_ctor(size_t n, size_t m, size_t* out) { G g(n, m); out[0] = g.data_.n; out[1] = g.data_.d; out[2] = g.max_degree_; }
// dense data
const float* vp_get(const D& d, size_t i, size_t& n) { auto s = d.get_datum(i); n = s.size(); return s.data(); }
float* vp_getm(D& d, size_t i, size_t& n) { auto s = d.get_datum(i); n = s.size(); return s.data(); }
const float* vp_get5(const DS& d, size_t i, size_t& n) { auto s = d.get_datum(i); n = s.size(); return s.data(); }
void vp_set(D& d, size_t i, const float* p, size_t n) { d.set_datum(i, std::span<const float>(p, n)); }
void vp_resize_small(D& d, size_t n) { d.resize(n); }
bool vp_eq(const D& a, const D& b) { return a == b; }
// blocked data
void vp_resolve(const B& b, size_t i, size_t* out) { auto p = b.resolve(i); out[0] = p.first; out[1] = p.second; }
void vp_bresize(B& b, size_t n) { b.resize(n); }
const float* vp_bget(const B& b, size_t i) { return b.get_datum(i).data(); }
size_t vp_capacity(const B& b) { return b.capacity(); }
}
