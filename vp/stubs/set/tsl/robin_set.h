// Contract view of the third-party hash set: elements are only reachable through the operations
// below, whose meaning is given to the verifier as contracts (vp/units).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <utility>
extern "C" {
void vp_set_clear(void* s);
bool vp_set_add(void* s, size_t x);  // true if x was not there before
void vp_set_add_range(void* s, const void* b, size_t n);
size_t vp_set_size(const void* s);
const void* vp_set_data(const void* s);
bool vp_set_has(const void* s, size_t x);
}
namespace tsl {
template <class K, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<K>, bool S = false> class robin_set {
  public:
    using value_type = K;
    using const_iterator = const K*;
    using iterator = const K*;
    void* token = nullptr;
    robin_set() = default;
    void clear() { vp_set_clear(this); }
    std::pair<const K*, bool> insert(const K& x) { return {nullptr, vp_set_add(this, (size_t)x)}; }
    template <class... X> std::pair<const K*, bool> emplace(X&&... x) { return insert(K(std::forward<X>(x)...)); }
    template <class I> void insert(I b, I e) { vp_set_add_range(this, &*b, e - b); }
    size_t size() const { return vp_set_size(this); }
    bool empty() const { return size() == 0; }
    bool contains(const K& x) const { return vp_set_has(this, (size_t)x); }
    size_t count(const K& x) const { return contains(x); }
    const K* begin() const { return (const K*)vp_set_data(this); }
    const K* end() const { return begin() + size(); }
    void reserve(size_t) {}
};
} // namespace tsl
