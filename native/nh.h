#pragma once
// Replay harness support: the contracts as run-time oracles on the real code.
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void));

namespace nh {
inline uint64_t seed = 1;
inline bool thorough = false;
inline std::string cur_name = "startup", cur_desc;
inline int nfail = 0;
inline std::map<std::string, int> fails_per;
inline std::map<std::string, std::pair<uint64_t, std::unordered_set<uint64_t>>> counts;
inline bool dying = false;

inline void emit(const char* what) {
    std::string s = "FAIL " + cur_name + " " + cur_desc + " :: " + what;
    for (auto& c : s)
        if (c == '\n') c = ' ';
    if (s.size() > 3000) s.resize(3000);
    std::printf("%s\n", s.c_str());
    std::fflush(stdout);
}
inline void finish_counts() {
    for (auto& [n, c] : counts) std::printf("COUNT %s %lu %lu\n", n.c_str(), (unsigned long)c.first, (unsigned long)c.second.size());
    std::fflush(stdout);
}
inline void on_death() {
    if (dying) return;
    dying = true;
    emit("the real code aborts (assertion, sanitizer or signal; see stderr)");
    finish_counts();
}
inline void on_alarm(int) {
    emit("the real code does not return within 60 s");
    std::_Exit(1);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        return s * 0x2545F4914F6CDD1Dull;
    }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below(b - a + 1); }
    float f() { return (float)range(-50, 50) / 8.0f; }
};

template <class... T> std::string str(const T&... x) {
    std::ostringstream o;
    (void)std::initializer_list<int>{(o << x << ' ', 0)...};
    return o.str();
}
template <class V> std::string list(const V& v) {
    std::ostringstream o;
    o << '[';
    for (auto& x : v) o << +x << ',';
    o << ']';
    return o.str();
}

// start a case: name of the oracle, full description of the input
inline void begin(const std::string& name, const std::string& desc) {
    cur_name = name;
    for (auto& c : cur_name)
        if (c == ' ') c = '_';
    cur_desc = desc;
    auto& c = counts[cur_name];
    c.first++;
    if (c.second.size() < 200000) c.second.insert(std::hash<std::string>()(desc));
    alarm(60);
    if (c.first == 3) std::printf("SAMPLE %s %s\n", cur_name.c_str(), desc.substr(0, 300).c_str());
}
inline void fail(const std::string& what) {
    nfail++;
    if (fails_per[cur_name]++ < 2) emit(what.c_str());
}
inline bool check(bool c, const std::string& what) {
    if (!c) fail(what);
    return c;
}
#define NH_CHECK(c) nh::check((c), #c)

template <class F> bool throws(F&& f) {
    try { f(); } catch (const std::exception&) { return true; } catch (...) { return true; }
    return false;
}
// run a test body; an escaping exception is a failure of the current case
template <class F> void guard(F&& f) {
    try { f(); } catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
}

inline int run(int argc, char** argv, const std::vector<std::function<void()>>& tests) {
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!std::strcmp(argv[i], "--seed")) seed = std::strtoull(argv[i + 1], nullptr, 10);
        if (!std::strcmp(argv[i], "--tier")) thorough = !std::strcmp(argv[i + 1], "thorough");
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    __sanitizer_set_death_callback(on_death);
    std::signal(SIGALRM, on_alarm);
    for (auto& t : tests) {
        guard(t);
        if (nfail > 12) break;
    }
    alarm(0);
    finish_counts();
    return nfail ? 1 : 0;
}
} // namespace nh
