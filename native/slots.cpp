// C05 counterexample search: the slot allocator and the registry against straightforward models
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <set>
#include <map>
#include <vector>
#include <stdexcept>
#include <string>
#include <cstdarg>
#include <csetjmp>
#include "/repo/src/registry.cpp"
static uint64_t rs = 88172645463325252ull; static uint64_t rng() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull >> 8; }
static int nce = 0; static unsigned long ncase = 0;
static void report(const char *f, ...) { va_list a; va_start(a, f); if (nce++ < 5) { printf("CE: "); vprintf(f, a); printf("\n"); } va_end(a); }
#define TEST(c, ...) do { ncase++; if (!(c)) report(__VA_ARGS__); } while (0)
static jmp_buf jb; static bool armed = false;
void jitc_log(LogLevel, const char *, ...) { }
[[noreturn]] void jitc_raise(const char *, ...) { throw std::runtime_error("raise"); }
[[noreturn]] void jitc_fail(const char *f, ...) noexcept { if (armed) { armed = false; longjmp(jb, 1); } printf("CE: internal error: %s\n", f); exit(1); }
int jit_leak_warnings() { return 1; }
static void slots(int len, int style, uint32_t range) {
    FreeSlots f; std::set<uint32_t> m;
    for (int i = 0; i < len; ++i) {
        bool push = m.empty() || (style == 0 ? rng() % 2 : style == 1 ? rng() % 4 != 0 : (i / 700) % 2 == 0);
        if (push) { uint32_t s = (uint32_t) (rng() % range); if (style == 2 && rng() % 2) s = s / 64 * 64 + (rng() % 2 ? 63 : 0); if (m.count(s)) continue; f.push(s); m.insert(s); }
        else { uint32_t s = f.pop(); TEST(s == *m.begin(), "pop() returns %u although the lowest free slot is %u", s, *m.begin()); if (s != *m.begin()) return; m.erase(m.begin()); }
        TEST(f.size() == m.size() && f.empty() == m.empty(), "%zu free slots are reported instead of %zu", f.size(), m.size());
    }
}
struct M { std::vector<void *> v; };                                  // model: id -> pointer
static std::map<std::pair<std::string, std::string>, M> model; static std::map<void *, std::pair<std::pair<std::string, std::string>, uint32_t>> where; // id 0: cleared
static char vn[3][8] = { "llvm", "cuda", "llvm2" }, dn[4][8] = { "A", "B", "AB", "" }, vn2[3][8], dn2[4][8];
static void check(int q) {
    for (auto &[p, w] : where) { uint32_t id = jitc_registry_id(p); TEST(id == w.second, "pointer %p has id %u instead of %u", p, id, w.second); if (q) break; }
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 4; ++b) {
        auto it = model.find({ vn[a], dn[b] }); uint32_t bound = 0; if (it != model.end()) for (uint32_t i = 0; i < it->second.v.size(); ++i) if (it->second.v[i]) bound = i + 1;
        uint32_t got = jitc_registry_id_bound(vn[a], dn2[b]); TEST(got == bound, "the id bound of domain (%s, %s) is %u instead of %u", vn[a], dn[b], got, bound); void *pk = jitc_registry_peek(vn[a], dn[b]);
        TEST(bound ? pk != nullptr && where.count(pk) && where[pk].first == std::make_pair(std::string(vn[a]), std::string(dn[b])) : pk == nullptr, "peek of domain (%s, %s) yields %p", vn[a], dn[b], pk);
        if (it == model.end() || (q && rng() % 4)) continue; std::vector<void *> d(bound + 2, (void *) 1); if (got == bound) { jitc_registry_get_pointers(vn2[a], dn[b], d.data());
            for (uint32_t i = 0; i < bound + 2; ++i) { void *e = i < bound && it->second.v[i] ? it->second.v[i] : (void *) 1; TEST(d[i] == e, "get_pointers stores %p at %u instead of %p", d[i], i, e); } }
        for (uint32_t i = 0; i <= it->second.v.size() + 1; ++i) { void *e = i == 0 || i > it->second.v.size() ? nullptr : it->second.v[i - 1], *p; bool th = false; try { p = jitc_registry_ptr(vn[a], dn[b], i); } catch (std::runtime_error &) { th = true; p = nullptr; }
            TEST(p == e && th == (i > it->second.v.size()), "id %u of domain (%s, %s) refers to %p (error: %d) instead of %p", i, vn[a], dn[b], p, th, e); }
    }
}
static void history(int len, int np) {
    jitc_registry_shutdown(); for (auto &w : where) w.second.second = 0; model.clear(); static char mem[4096]; 
    for (int i = 0; i < len && nce < 5; ++i) {
        void *p = mem + 8 * (rng() % np); int a = (int) (rng() % 3), b = (int) (rng() % 4); unsigned op = (unsigned) (rng() % 100);
        try {
            if (op < 52) {
                bool dup = where.count(p), th = false; uint32_t id = 0; try { id = jitc_registry_put(rng() % 2 ? vn[a] : vn2[a], rng() % 2 ? dn[b] : dn2[b], p); } catch (std::runtime_error &) { th = true; }
                TEST(th == dup, dup ? "registering %p twice is accepted" : "registering %p is rejected", p); if (dup || th) continue;
                M &m = model[{ vn[a], dn[b] }]; uint32_t e = 0; while (e < m.v.size() && m.v[e]) e++; if (e == m.v.size()) m.v.push_back(nullptr); m.v[e] = p; where[p] = { { vn[a], dn[b] }, e + 1 }; TEST(id == e + 1, "a new instance receives id %u although %u is the lowest free id", id, e + 1);
            } else if (op < 97) {
                bool kn = where.count(p); volatile bool fatal = false; armed = true; if (setjmp(jb) == 0) jitc_registry_remove(p); else fatal = true; armed = false; TEST(fatal == !kn, "removing %s pointer %p %s", kn ? "the registered" : "an unknown", p, fatal ? "fails" : "is accepted"); if (!kn) continue;
                auto w = where[p]; if (w.second) model[w.first].v[w.second - 1] = nullptr; where.erase(p);
            } else if (op == 97 && rng() % 3 == 0) { jitc_registry_clear(); for (auto &m : model) m.second.v.clear(); for (auto &w : where) w.second.second = 0; }
            else if (op == 98 && rng() % 4 == 0) { jitc_registry_shutdown(); for (auto &w : where) w.second.second = 0; model.clear(); }
            if (jitc_registry_id(nullptr) != 0) report("the null pointer has an id");
            if (!where.count(p)) { bool th = false; try { jitc_registry_id(p); } catch (std::runtime_error &) { th = true; } TEST(th, "an unknown pointer has an id"); }
            if (i % 7 == 0) check(i % 49 != 0);
        } catch (std::exception &e) { report("exception: %s", e.what()); return; }
    }
    check(0);
}
int main(int argc, char **argv) {
    bool thorough = argc > 1 && !strcmp(argv[1], "thorough"); if (getenv("VERIF_SEED")) rs += 977 * strtoull(getenv("VERIF_SEED"), 0, 10); memcpy(vn2, vn, sizeof vn); memcpy(dn2, dn, sizeof dn); int n = thorough ? 2000 : 150;
    for (int i = 0; i < n && nce < 5; ++i) slots(3000, i % 3, i % 5 == 0 ? 64 : i % 5 == 1 ? 130 : i % 5 == 2 ? 1000 : i % 5 == 3 ? 100000 : 5000);
    for (int i = 0; i < 2 * n && nce < 5; ++i) history(400, i % 4 == 0 ? 5 : i % 4 == 1 ? 40 : i % 4 == 2 ? 150 : 500);
    printf("COUNT: %lu\n", ncase); return nce ? 1 : 0;
}
