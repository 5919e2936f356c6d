#include "common.h"
#include "svs/core/distance.h"
using namespace svs;
using svs::Float16;
#define FOR_PAIRS(X) X(f32_f32, float, float) X(f32_u8, float, uint8_t) X(f32_i8, float, int8_t) X(f32_f16, float, Float16) X(f16_f32, Float16, float) X(f16_f16, Float16, Float16) X(i8_i8, int8_t, int8_t) X(u8_u8, uint8_t, uint8_t) X(i8_f32, int8_t, float) X(u8_i8, uint8_t, int8_t)
extern "C" {
#define DEF(n, A, B) \
  float vp_l2_##n(const A* a, const B* b, size_t n_) { return distance::compute(DistanceL2(), std::span<const A>(a, n_), std::span<const B>(b, n_)); } \
  float vp_ip_##n(const A* a, const B* b, size_t n_) { return distance::compute(DistanceIP(), std::span<const A>(a, n_), std::span<const B>(b, n_)); } \
  float vp_cos_##n(const A* a, const B* b, size_t n_, float an) { DistanceCosineSimilarity d; d.norm_ = an; return distance::compute(d, std::span<const A>(a, n_), std::span<const B>(b, n_)); }
FOR_PAIRS(DEF)
#define ST(n, A, B, K) \
  float vp_l2s##K##_##n(const A* a, const B* b) { return distance::compute(DistanceL2(), std::span<const A, K>(a, K), std::span<const B, K>(b, K)); } \
  float vp_ips##K##_##n(const A* a, const B* b) { return distance::compute(DistanceIP(), std::span<const A, K>(a, K), std::span<const B, K>(b, K)); } \
  float vp_coss##K##_##n(const A* a, const B* b, float an) { DistanceCosineSimilarity d; d.norm_ = an; return distance::compute(d, std::span<const A, K>(a, K), std::span<const B, K>(b, K)); }
#define ST1(n, A, B) ST(n, A, B, 5) ST(n, A, B, 100) ST(n, A, B, 128) ST(n, A, B, 37)
FOR_PAIRS(ST1)
#define NRM(n, A) \
  float vp_norm2_##n(const A* a, size_t n_) { return distance::norm_square(std::span<const A>(a, n_)); } \
  void vp_fix_##n(DistanceCosineSimilarity& d, const A* a, size_t n_) { d.fix_argument(std::span<const A>(a, n_)); }
NRM(f32, float) NRM(i8, int8_t) NRM(u8, uint8_t) NRM(f16, Float16)
}
VP_OFFSET(cos_norm, DistanceCosineSimilarity, norm_)
VP_CONST(cos_sizeof, sizeof(DistanceCosineSimilarity))
