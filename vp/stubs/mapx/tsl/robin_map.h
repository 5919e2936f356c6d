// Contract view of the third-party hash map for code that only emplaces, looks up by key and
// iterates: every operation is declared only, its meaning is given to the verifier (vp/units).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <utility>
extern "C" {
void* vp_map_slot(void* m, size_t k);   // the value stored for k, created if needed
void vp_map_clear(void* m);
const void* vp_map_begin(const void* m);
const void* vp_map_end(const void* m);
}
namespace tsl {
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<K, V>>, bool S = false> class robin_map {
  public:
    using key_type = K;
    using value_type = std::pair<K, V>;
    void* token = nullptr;
    using const_iterator = const value_type*;
    struct iterator {
        V* v;
        V& value() const { return *v; }
        value_type* operator->() const { return nullptr; }
        bool operator==(const_iterator) const { return false; }
        bool operator==(const iterator& o) const { return v == o.v; }
        bool operator!=(const_iterator) const { return true; }
    };
    const_iterator begin() const { return (const_iterator)vp_map_begin(this); }
    const_iterator end() const { return (const_iterator)vp_map_end(this); }
    template <class... X> std::pair<iterator, bool> try_emplace(const K& k, X&&...) { return {iterator{(V*)vp_map_slot(this, (size_t)k)}, true}; }
    void clear() { vp_map_clear(this); }
    iterator find(const K& k) { return try_emplace(k).first; }
    std::pair<iterator, bool> insert(const value_type& p) { return try_emplace(p.first); }
    template <class... X> std::pair<iterator, bool> emplace(X&&... x) { return insert(value_type(std::forward<X>(x)...)); }
    void erase(iterator) {}
    size_t size() const { return 0; }
};
} // namespace tsl
