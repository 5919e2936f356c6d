// IDTranslator (core/translation.h) over the contract view of the hash map.
#include "common.h"
#include "svs/core/translation.h"
using namespace svs;
using T = IDTranslator;
using M1 = decltype(T::external_to_internal_);
using M2 = decltype(T::internal_to_external_);
VP_CONST(t_sizeof, sizeof(T))
VP_CONST(t_e2i, __builtin_offsetof(T, external_to_internal_))
VP_CONST(t_i2e, __builtin_offsetof(T, internal_to_external_))
VP_OFFSET(m_has, M1, has)
VP_OFFSET(m_val, M1, val)
VP_OFFSET(m_n, M1, n)
using E = std::span<const uint64_t>;
using I = std::span<const uint64_t>;
extern "C" {
void vp_put(T& t, uint64_t e, uint64_t i) { t.insert_translation(e, i); }
void vp_insert(T& t, const uint64_t* e, size_t ne, const uint64_t* i, size_t ni) { t.insert(E(e, ne), I(i, ni)); }
bool vp_has_e(const T& t, uint64_t e) { return t.has_external(e); }
bool vp_has_i(const T& t, uint32_t i) { return t.has_internal(i); }
uint32_t vp_get_i(const T& t, uint64_t e) { return t.get_internal(e); }
uint64_t vp_get_e(const T& t, uint32_t i) { return t.get_external(i); }
void vp_remap(T& t, uint32_t a, uint32_t b) { t.remap_internal_id(a, b); }
void vp_del_e(T& t, const uint64_t* e, size_t n) { t.delete_external(E(e, n)); }
void vp_del_i(T& t, const uint32_t* e, size_t n) { t.delete_internal(std::span<const uint32_t>(e, n)); }
bool vp_unique(const uint64_t* e, size_t n) { E s(e, n); return lib::all_unique(s.begin(), s.end()); }
size_t vp_size(const T& t) { return t.size(); }
}
