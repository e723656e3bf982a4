// system robin_map + the 'erase_fast' member of the version drjit-core ships as a (here empty) submodule
#pragma once
#define robin_map robin_map_base
#include_next <tsl/robin_map.h>
#undef robin_map
namespace tsl {
template <class K, class T, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<K, T>>, bool S = false, class G = rh::power_of_two_growth_policy<2>>
struct robin_map : robin_map_base<K, T, H, E, A, S, G> {
    using Base = robin_map_base<K, T, H, E, A, S, G>;
    using Base::Base;
    void erase_fast(typename Base::iterator it) { Base::erase(it); }
    template <typename... Args> std::pair<typename Base::iterator, bool> try_emplace_hash(size_t hash, const K &k, Args &&...args) {
        if (hash != Base::hash_function()(k)) hash_mismatch()++;
        return Base::try_emplace(k, std::forward<Args>(args)...);
    }
    static unsigned long long &hash_mismatch() { static unsigned long long n = 0; return n; }
};
}
