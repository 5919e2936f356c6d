#include "common.h"
#include "svs/lib/misc.h"
#include "svs/lib/narrow.h"
using namespace svs;
#define NARROW(T, U) T vp_narrow_##T##_##U(U x) { return lib::narrow<T>(x); }
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t;
extern "C" {
NARROW(u32, u64) NARROW(u64, i64) NARROW(i64, u64) NARROW(i32, i64) NARROW(u16, u64) NARROW(u8, u32) NARROW(u32, i64) NARROW(i8, i64)
NARROW(u16, i32) NARROW(i32, u32) NARROW(u32, i32) NARROW(u64, u32) NARROW(i64, i32) NARROW(i32, u64) NARROW(u8, i8) NARROW(i16, i64)
size_t vp_div_round_up(size_t x, size_t y) { return lib::div_round_up(x, y); }
size_t vp_round_up(size_t x, size_t y) { return lib::round_up_to_multiple_of(x, y); }
size_t vp_p2_div(size_t x, size_t k) { return x / lib::PowerOfTwo(k); }
size_t vp_p2_mod(size_t x, size_t k) { return x % lib::PowerOfTwo(k); }
size_t vp_p2_mul(size_t x, size_t k) { return x * lib::PowerOfTwo(k); }
size_t vp_p2_mulr(size_t x, size_t k) { return lib::PowerOfTwo(k) * x; }
size_t vp_p2_value(size_t k) { return lib::PowerOfTwo(k).value(); }
size_t vp_prevpow2(size_t x) { return lib::prevpow2(x).raw(); }
size_t vp_alignment(size_t x) { return lib::compute_alignment(x); }
u8 vp_bitmask_u8(u8 lo, u8 hi) { return lib::bitmask<u8>(lo, hi); }
u16 vp_bitmask_u16(u16 lo, u16 hi) { return lib::bitmask<u16>(lo, hi); }
u32 vp_bitmask_u32(u32 lo, u32 hi) { return lib::bitmask<u32>(lo, hi); }
u64 vp_bitmask_u64(u64 lo, u64 hi) { return lib::bitmask<u64>(lo, hi); }
i32 vp_bitmask_i32(i32 lo, i32 hi) { return lib::bitmask<i32>(lo, hi); }
}
