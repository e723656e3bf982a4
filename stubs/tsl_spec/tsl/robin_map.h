// Specification of tsl::robin_map (a dependency that is not part of this checkout): every operation is expressed through
// six primitives on an abstract finite map, which carry contracts in the verifier (engine/absmap.py)
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstring>
#include <iterator>
#include <limits>
#include <stdexcept>
#include <type_traits>
#include <vector>
#include <cstdint>
#include <functional>
#include <memory>
#include <new>
#include <utility>
#include <tuple>
extern "C" {
void *spec_map_find(const void *map, const void *key, size_t key_size);
void *spec_map_insert(void *map, const void *key, size_t key_size, size_t entry_size);
void spec_map_erase(void *map, void *entry);
void spec_map_clear(void *map);
size_t spec_map_size(const void *map);
void *spec_map_begin(const void *map);
void *spec_map_next(const void *map, void *entry);
void spec_map_hash(size_t given, size_t expected);
}
namespace tsl {
namespace rh { template <size_t N> struct power_of_two_growth_policy { }; }
namespace detail_robin_hash { template <class V, bool S> struct bucket_entry { uint32_t a, b; typename std::aligned_storage<sizeof(V), alignof(V)>::type v; }; }
template <class K, class T, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<K, T>>, bool S = false, class G = rh::power_of_two_growth_policy<2>>
struct robin_map {
    using key_type = K; using mapped_type = T; using value_type = std::pair<K, T>; using size_type = size_t; using hasher = H; using key_equal = E;
    char id;
    struct iterator {
        const robin_map *m; value_type *p;
        value_type &operator*() const { return *p; }
        value_type *operator->() const { return p; }
        const K &key() const { return p->first; }
        T &value() const { return p->second; }
        iterator &operator++() { p = (value_type *) spec_map_next(m, p); return *this; }
        iterator operator++(int) { iterator i = *this; ++*this; return i; }
        bool operator==(const iterator &o) const { return p == o.p; }
        bool operator!=(const iterator &o) const { return p != o.p; }
    };
    using const_iterator = iterator;
    robin_map() { }
    explicit robin_map(size_t) { }
    iterator end() const { return { this, nullptr }; }
    iterator cend() const { return { this, nullptr }; }
    iterator begin() const { return { this, (value_type *) spec_map_begin(this) }; }
    iterator cbegin() const { return begin(); }
    iterator find(const K &k) const { return { this, (value_type *) spec_map_find(this, &k, sizeof(K)) }; }
    iterator find(const K &k, size_t h) const { spec_map_hash(h, H()(k)); return find(k); }
    size_t count(const K &k) const { return find(k).p != nullptr; }
    bool contains(const K &k) const { return find(k).p != nullptr; }
    template <class... Args> std::pair<iterator, bool> try_emplace(const K &k, Args &&...args) {
        iterator it = find(k);
        if (it.p) return { it, false };
        it.p = (value_type *) spec_map_insert(this, &k, sizeof(K), sizeof(value_type));
        new (&it.p->second) T(std::forward<Args>(args)...);
        return { it, true };
    }
    template <class... Args> std::pair<iterator, bool> try_emplace_hash(size_t h, const K &k, Args &&...args) { spec_map_hash(h, H()(k)); return try_emplace(k, std::forward<Args>(args)...); }
    template <class K2, class... Args> std::pair<iterator, bool> emplace(K2 &&k, Args &&...args) { return try_emplace(K(std::forward<K2>(k)), std::forward<Args>(args)...); }
    std::pair<iterator, bool> insert(const value_type &v) { return try_emplace(v.first, v.second); }
    template <class M> std::pair<iterator, bool> insert_or_assign(const K &k, M &&m) { auto r = try_emplace(k, m); if (!r.second) r.first.p->second = m; return r; }
    T &operator[](const K &k) { return try_emplace(k).first.p->second; }
    T &at(const K &k) { return find(k).p->second; }
    void erase_fast(iterator it) { spec_map_erase(this, it.p); }
    iterator erase(iterator it) { iterator n = it; ++n; spec_map_erase(this, it.p); return n; }
    size_t erase(const K &k) { iterator it = find(k); if (!it.p) return 0; spec_map_erase(this, it.p); return 1; }
    void clear() { spec_map_clear(this); }
    size_t size() const { return spec_map_size(this); }
    bool empty() const { return spec_map_size(this) == 0; }
    void reserve(size_t) { }
    size_t bucket_count() const { return 0; }
};
}
