// Narrowing and the integer helpers.
#include "nh.h"
#include "svs/lib/misc.h"
#include "svs/lib/narrow.h"
using namespace svs;
using i128 = __int128;
template <class T, class U> __attribute__((noinline)) T nar(U x) { return lib::narrow<T>(x); }
template <class T> __attribute__((noinline)) T bm(T a, T b) { return lib::bitmask<T>(a, b); }
template <class U> std::vector<U> samples(nh::Rng& r) {
    std::vector<U> v;
    for (int k = 0; k < int(8 * sizeof(U)); ++k)
        for (int d = -2; d <= 2; ++d) { v.push_back(U((U(1) << k) + U(d))); v.push_back(U(-(i128(1) << k) + d)); }
    for (int k = 0; k < (nh::thorough ? 4000 : 300); ++k) v.push_back(U(r.next() >> r.below(64)));
    return v;
}
template <class T, class U> void narrow_pair(const char* nm) {
    nh::Rng r(nh::seed);
    for (U u : samples<U>(r)) {
        nh::begin(nm, nh::str("value", (long long)u, "source bytes", sizeof(U), "target bytes", sizeof(T)));
        bool fits = i128(u) >= i128(std::numeric_limits<T>::min()) && i128(u) <= i128(std::numeric_limits<T>::max());
        bool thrown = false;
        T t{};
        try { t = nar<T, U>(u); } catch (const lib::narrowing_error&) { thrown = true; }
        nh::check(thrown == !fits, "narrow() raises an error exactly for values that do not fit");
        if (!thrown) nh::check(i128(t) == i128(u), "narrow() preserves the value");
    }
}
template <class U> void narrow_all() {
    narrow_pair<uint8_t, U>("narrow");
    if constexpr (!std::is_same_v<U, uint16_t>) narrow_pair<uint16_t, U>("narrow");
    narrow_pair<uint32_t, U>("narrow");
    narrow_pair<uint64_t, U>("narrow");
    narrow_pair<int8_t, U>("narrow");
    narrow_pair<int16_t, U>("narrow");
    narrow_pair<int32_t, U>("narrow");
    narrow_pair<int64_t, U>("narrow");
}
template <class T> void masks() {
    const int w = 8 * sizeof(T);
    for (int lo = 0; lo < w; ++lo)
        for (int hi = lo; hi < w; ++hi) {
            nh::begin("bitmask", nh::str("width", w, "signed", std::is_signed_v<T>, "lo", lo, "hi", hi));
            unsigned __int128 want = 0;
            for (int k = lo; k <= hi; ++k) want |= (unsigned __int128)(1) << k;
            nh::check(std::make_unsigned_t<T>(bm<T>(T(lo), T(hi))) == std::make_unsigned_t<T>(want), "ones from lo to hi and nowhere else");
        }
}
void narrowing() {
    narrow_all<uint8_t>(); narrow_all<uint16_t>(); narrow_all<uint32_t>(); narrow_all<uint64_t>();
    narrow_all<int8_t>(); narrow_all<int16_t>(); narrow_all<int32_t>(); narrow_all<int64_t>();
}
void all_masks() { masks<uint8_t>(); masks<uint16_t>(); masks<uint32_t>(); masks<uint64_t>(); masks<int32_t>(); }
void arith() {
    nh::Rng r(nh::seed);
    auto S = samples<uint64_t>(r);
    for (int it = 0; it < (nh::thorough ? 200000 : 20000); ++it) {
        uint64_t x = S[r.below(S.size())], y = S[r.below(S.size())];
        if (r.below(2)) { x %= 1000; y %= 20; }
        if (y == 0) y = 1;
        unsigned __int128 X = x, Y = y, q = (X + Y - 1) / Y;
        nh::begin("round", nh::str("x", x, "y", y));
        nh::check(lib::div_round_up(x, y) == uint64_t(q), "div_round_up is the ceiling");
        if (q * Y >> 64 == 0) nh::check(lib::round_up_to_multiple_of(x, y) == uint64_t(q * Y), "round_up_to_multiple_of is the next multiple");
        size_t k = r.below(64);
        lib::PowerOfTwo p(k);
        nh::begin("pow2", nh::str("x", x, "k", k));
        nh::check(p.value() == uint64_t(1) << k && x / p == x / p.value() && x % p == x % p.value(), "division and remainder by a power of two");
        nh::check(x * p == x * p.value() && p * x == x * p.value(), "product with a power of two");
        if (x) { auto v = lib::prevpow2(x).value(); nh::check(v <= x && x - v < v, "prevpow2 is the largest power of two not above"); }
        nh::check(lib::compute_alignment(x) == (x % 64 == 0 ? 64u : x % 32 == 0 ? 32u : 0u), "compute_alignment");
    }
    nh::begin("pow2", "prevpow2 of 0");
    bool th = false;
    try { lib::prevpow2(0); } catch (const ANNException&) { th = true; }
    nh::check(th, "prevpow2(0) raises an error");
}
int main(int argc, char** argv) { return nh::run(argc, argv, {narrowing, all_masks, arith}); }
