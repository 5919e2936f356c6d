// Contract view of the third-party hash map: a total map from keys to (present, value), given as two
// arrays indexed by the key.  Only what the library uses; iteration is not part of the contract.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <stdexcept>
#include <utility>
namespace tsl {
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<K, V>>, bool S = false> class robin_map {
  public:
    using key_type = K;
    using value_type = std::pair<K, V>;
    uint8_t* has = nullptr;
    V* val = nullptr;
    size_t n = 0;
    struct const_iterator {
        using value_type = std::pair<K, V>;
        K k;
        const V* v;
        struct pr { K first; const V& second; const pr* operator->() const { return this; } };
        pr operator->() const { return {k, *v}; }
        std::pair<K, V> operator*() const { return {k, *v}; }
        const_iterator& operator++() { return *this; }
        bool operator!=(const const_iterator& o) const { return k != o.k; }
        bool operator==(const const_iterator& o) const { return k == o.k; }
    };
    struct iterator {
        robin_map* m;
        K k;
        struct pr { K first; V& second; pr* operator->() { return this; } };
        pr operator->() const { return {k, m->val[(size_t)k]}; }
        V& value() const { return m->val[(size_t)k]; }
        bool operator==(const const_iterator&) const { return !m->has[(size_t)k]; }  // against end()
        bool operator==(const iterator& o) const { return k == o.k; }
    };
    const_iterator begin() const { return {}; }
    const_iterator end() const { return {}; }
    void clear() noexcept { n = 0; }  // no function under contract calls it
    size_t size() const { return n; }
    bool contains(const K& k) const { return has[(size_t)k] != 0; }
    size_t count(const K& k) const { return contains(k); }
    V& operator[](const K& k) {
        if (!has[(size_t)k]) { has[(size_t)k] = 1; val[(size_t)k] = V(); ++n; }
        return val[(size_t)k];
    }
    const V& at(const K& k) const {
        if (!has[(size_t)k]) throw std::out_of_range("robin_map");
        return val[(size_t)k];
    }
    iterator find(const K& k) { return {this, k}; }
    template <class... Xs> std::pair<iterator, bool> try_emplace(const K& k, Xs&&... xs) {
        if (has[(size_t)k]) return {iterator{this, k}, false};
        has[(size_t)k] = 1; val[(size_t)k] = V(std::forward<Xs>(xs)...); ++n;
        return {iterator{this, k}, true};
    }
    size_t erase(const K& k) {
        if (!has[(size_t)k]) return 0;
        has[(size_t)k] = 0; --n;
        return 1;
    }
    iterator erase(iterator i) { erase(i.k); return i; }
    std::pair<iterator, bool> insert(const std::pair<K, V>& p) {
        if (has[(size_t)p.first]) return {iterator{this, p.first}, false};
        has[(size_t)p.first] = 1; val[(size_t)p.first] = p.second; ++n;
        return {iterator{this, p.first}, true};
    }
    template <class... X> std::pair<iterator, bool> emplace(X&&... x) { return insert(value_type(std::forward<X>(x)...)); }
};
} // namespace tsl
