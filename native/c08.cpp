// Distance kernels against a scalar reference in double precision, operands placed against guard pages.
#include "nh.h"
#include <sys/mman.h>
#include "svs/core/distance.h"
using namespace svs;
using svs::Float16;
static constexpr size_t ARENA = 1 << 18;
static char* arena(int k) {
    static char* p[2] = {nullptr, nullptr};
    if (!p[k]) {
        p[k] = (char*)mmap(nullptr, ARENA + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(p[k], 4096, PROT_NONE);
        mprotect(p[k] + 4096 + ARENA, 4096, PROT_NONE);
        p[k] += 4096;
    }
    return p[k];
}
template <class T> T* place(int k, size_t n, int mode) {  // 0: ends at the guard page, 1: starts at it
    char* b = arena(k);
    return (T*)(mode ? b : b + ARENA - n * sizeof(T));
}
template <class T> T gen(nh::Rng& r, int style) {
    if constexpr (std::is_same_v<T, uint8_t>) return style == 1 ? (r.below(2) ? 255 : 0) : style == 2 ? 255 : (uint8_t)r.below(256);
    else if constexpr (std::is_same_v<T, int8_t>) return style == 1 ? (r.below(2) ? 127 : -128) : style == 2 ? -128 : (int8_t)r.range(-128, 127);
    else return T((float)r.range(-64, 64) / 8.0f);
}
template <class T> const char* nm() {
    return std::is_same_v<T, float> ? "f32" : std::is_same_v<T, Float16> ? "f16" : std::is_same_v<T, int8_t> ? "i8" : "u8";
}
static bool close(double got, double want, double mag, size_t n) { return std::abs(got - want) <= (1e-5 + 1.3e-7 * n) * mag + 1e-9 && got == got; }
template <class A, class B, size_t N> void compare(const A* a, const B* b, size_t n, const std::string& d) {
    double l2 = 0, ip = 0, mip = 0, aa = 0, bb = 0;
    for (size_t i = 0; i < n; ++i) {
        double x = (double)(float)a[i], y = (double)(float)b[i];
        l2 += (x - y) * (x - y); ip += x * y; mip += std::abs(x * y); aa += x * x; bb += y * y;
    }
    std::span<const A, N> sa(a, n);
    std::span<const B, N> sb(b, n);
    nh::begin(std::string("l2-") + nm<A>() + "-" + nm<B>(), d);
    DistanceL2 dl2;
    if (!close(distance::compute(dl2, sa, sb), l2, l2, n)) nh::fail("squared distance " + std::to_string(distance::compute(dl2, sa, sb)) + " instead of " + std::to_string(l2));
    nh::begin(std::string("ip-") + nm<A>() + "-" + nm<B>(), d);
    DistanceIP dip;
    if (!close(distance::compute(dip, sa, sb), ip, mip, n)) nh::fail("inner product " + std::to_string(distance::compute(dip, sa, sb)) + " instead of " + std::to_string(ip));
    if (aa > 0 && bb > 0) {
        nh::begin(std::string("cos-") + nm<A>() + "-" + nm<B>(), d);
        DistanceCosineSimilarity c;
        c.fix_argument(sa);
        double want = ip / (std::sqrt(aa) * std::sqrt(bb)), got = distance::compute(c, sa, sb);
        if (!close(got, want, mip / (std::sqrt(aa) * std::sqrt(bb)), n)) nh::fail("cosine similarity " + std::to_string(got) + " instead of " + std::to_string(want));
    }
}
template <class A, class B> void pair() {
    nh::Rng r(nh::seed * 131 + sizeof(A) * 7 + sizeof(B));
    std::vector<size_t> lens;
    for (size_t n = 0; n <= 300; ++n) lens.push_back(n);
    for (size_t n : {384, 511, 512, 513, 768, 960, 1000, 1024, 1025, 1536, 2047, 4096, 8191, 16384, 20000, 32767, 32768}) lens.push_back(n);
    for (size_t n : lens)
        for (int rep = 0; rep < (nh::thorough ? 12 : 3); ++rep) {
            int mode = rep & 1, style = (std::is_integral_v<A> ? rep % 3 : 0);
            A* a = place<A>(0, n, mode);
            B* b = place<B>(1, n, mode);
            for (size_t i = 0; i < n; ++i) {
                a[i] = gen<A>(r, style);
                b[i] = style == 2 && rep % 2 == 0 && std::is_integral_v<B> ? (B)(std::is_same_v<B, int8_t> ? 127 : 0) : gen<B>(r, style == 2 ? 1 : style);
            }
            compare<A, B, Dynamic>(a, b, n, nh::str("length", n, "rep", rep, "seed", nh::seed, n <= 8 ? "a" : "", n <= 8 ? std::to_string(n ? (float)a[0] : 0) : ""));
            // one-hot difference: a single component carries the whole distance
            if (n && n <= 300) {
                for (size_t i = 0; i < n; ++i) a[i] = A(0), b[i] = B(0);
                size_t k = r.below(n);
                a[k] = A(3); b[k] = B(5);
                compare<A, B, Dynamic>(a, b, n, nh::str("length", n, "only component", k));
            }
        }
    auto st = [&]<size_t N>() {
        for (int mode = 0; mode < 2; ++mode) {
            A* a = place<A>(0, N, mode);
            B* b = place<B>(1, N, mode);
            for (size_t i = 0; i < N; ++i) a[i] = gen<A>(r, 0), b[i] = gen<B>(r, 0);
            compare<A, B, N>(a, b, N, nh::str("static length", N));
        }
    };
    st.template operator()<1>(); st.template operator()<5>(); st.template operator()<16>(); st.template operator()<31>(); st.template operator()<37>();
    st.template operator()<64>(); st.template operator()<96>(); st.template operator()<100>(); st.template operator()<128>(); st.template operator()<160>();
}
int main(int argc, char** argv) {
    return nh::run(argc, argv, {pair<float, float>, pair<float, uint8_t>, pair<float, int8_t>, pair<float, Float16>, pair<Float16, float>, pair<Float16, Float16>, pair<int8_t, int8_t>, pair<uint8_t, uint8_t>, pair<int8_t, float>, pair<uint8_t, int8_t>});
}
