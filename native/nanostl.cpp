// C17 counterexample search: random operation histories on nanostl containers vs. the C++ standard library (ASan, UBSan)
#include <vector>
#include <string>
#include <memory>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <drjit-core/nanostl.h>
static uint64_t seed = 1, ncase = 0, nbad = 0;
static uint64_t rng() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed * 0x2545F4914F6CDD1Dull; }
static void report(const char *fmt, ...) { if (nbad++ < 10) { va_list a; va_start(a, fmt); printf("CE: "); vprintf(fmt, a); printf("\n"); va_end(a); fflush(stdout); } }
static long live = 0;
struct E {   // owns a block: leaks and double destruction are visible to ASan
    int *p;
    E() : p(new int(0)) { live++; }
    explicit E(int v) : p(new int(v)) { live++; }
    E(const E &o) : p(new int(*o.p)) { live++; }
    E(E &&o) : p(o.p) { o.p = new int(-7); live++; }
    E &operator=(const E &o) { int v = *o.p; delete p; p = new int(v); return *this; }
    ~E() { delete p; p = nullptr; live--; }
    bool operator!=(const E &o) const { return *p != *o.p; }
    bool operator==(const E &o) const { return *p == *o.p; }
};
using V = drjit::vector<E>; using SV = std::vector<int>;
static bool same(V &v, const SV &s) {
    if (v.size() != s.size() || v.empty() != s.empty() || v.capacity() < v.size() || (size_t) (v.end() - v.begin()) != s.size()) return false;
    for (size_t i = 0; i < s.size(); ++i) if (*v[i].p != s[i]) return false;
    return true;
}
static void vectors() {
    std::string h;
    V v[3]; SV s[3];
    for (int step = 0; step < 40; ++step) {
        int i = rng() % 3, j = rng() % 3, x = rng() % 100; size_t n = rng() % 4 ? rng() % 12 : rng() % 70; int op = rng() % 22; ncase++;
        char d[96]; snprintf(d, sizeof d, " %d:%d,%d,%zu,%d", op, i, j, n, x); h += d;
        switch (op) {
            case 0: case 1: v[i].push_back(E(x)); s[i].push_back(x); break;
            case 2: { E e(x); v[i].push_back(e); s[i].push_back(x); break; }
            case 3: if (*v[i].emplace_back(x).p != x) report("emplace_back returned the wrong element"); s[i].push_back(x); break;
            case 4: if (!s[i].empty()) { size_t k = rng() % s[i].size(); v[i].push_back(v[i][k]); s[i].push_back(int(s[i][k])); } break;
            case 5: if (!s[i].empty()) { size_t k = rng() % s[i].size(); v[i].emplace_back((const E &) v[i][k]); s[i].push_back(int(s[i][k])); } break;
            case 6: if (!s[i].empty()) { v[i].pop_back(); s[i].pop_back(); } break;
            case 7: if (!s[i].empty() && *v[i].back().p != s[i].back()) report("back() after%s", h.c_str()); break;
            case 8: v[i].resize(n); s[i].resize(n); break;
            case 9: v[i].resize(n, E(x)); s[i].resize(n, x); break;
            case 10: v[i].clear(); s[i].clear(); break;
            case 11: v[i] = v[j]; s[i] = SV(s[j]); break;
            case 12: if (i != j) { v[i] = std::move(v[j]); s[i] = s[j]; s[j].clear(); } break;
            case 13: v[i].swap(v[j]); s[i].swap(s[j]); break;
            case 14: v[i].reserve(n); if (v[i].capacity() < n) report("reserve(%zu) capacity %zu", n, v[i].capacity()); break;
            case 15: { V c(v[i]); if (!same(c, s[i])) report("copy constructor after%s", h.c_str()); V m(std::move(c)); if (!same(m, s[i]) || c.size()) report("move constructor after%s", h.c_str()); break; }
            case 16: { V c(n); if (!same(c, SV(n, 0))) report("vector(%zu)", n); V e(n, E(x)); if (!same(e, SV(n, x))) report("vector(%zu, v)", n); break; }
            case 17: { V c(v[i].begin(), v[i].end()); if (!same(c, s[i])) report("range constructor after%s", h.c_str()); break; }
            case 18: if ((v[i] == v[j]) != (s[i] == s[j]) || (v[i] != v[j]) != (s[i] != s[j])) report("comparison after%s", h.c_str()); break;
            case 19: if (!s[i].empty()) { V c(v[i]); *c[rng() % s[i].size()].p += 1; if (c == v[i] || !(c != v[i])) report("unequal vectors compare equal after%s", h.c_str()); } break;
            case 20: { const V &c = v[i]; int sum = 0, sum2 = 0; for (const E &e : c) sum += *e.p; for (int q : s[i]) sum2 += q; if (sum != sum2) report("iteration after%s", h.c_str()); break; }
            default: break;
        }
        for (int k = 0; k < 3; ++k) if (!same(v[k], s[k])) { report("vector %d differs from std::vector after operations (op:i,j,n,x)%s", k, h.c_str()); return; }
        long want = 0; for (auto &q : s) want += q.size();
        if (live != want) { report("%ld live elements instead of %ld after operations%s", live, want, h.c_str()); return; }
    }
}
using S = drjit::string; using SS = std::string;
static bool same(S &a, const SS &b) {
    return a.size() == b.size() && a.length() == b.size() && a.capacity() >= a.size() && strlen(a.c_str()) == b.size() && !memcmp(a.c_str(), b.data(), b.size()) && (size_t) (a.end() - a.begin()) == b.size();
}
static SS text(size_t n) { SS r; for (size_t i = 0; i < n; ++i) r += (char) ('!' + rng() % 90); return r; }
template <typename T> static void num(S &a, SS &b, T v) {
    a.put(v); SS q = std::to_string(v); b += q;
    if (!same(a, b)) report("put(%s): got \"%s\"", q.c_str(), a.c_str());
    S c(v); if (!same(c, q)) report("string(%s): got \"%s\"", q.c_str(), c.c_str());
}
static void fl(double v) { char t[64]; snprintf(t, 64, "%g", v); S a; a.put(v); S b("v=", 2); b.put((float) v); char u[64]; snprintf(u, 64, "v=%g", (float) v); if (!same(a, t) || !same(b, u)) report("put(%s): got \"%s\" / \"%s\"", t, a.c_str(), b.c_str()); }
static uint64_t spread() { uint64_t v = rng() >> (rng() % 64); switch (rng() % 4) { case 0: { uint64_t p = 1; for (int k = rng() % 20; k > 0; --k) p *= 10; return p + rng() % 3 - 1; } case 1: return (1ull << (rng() % 64)) + rng() % 3 - 1; default: return v; } }
static void strings() {
    SS h; S v[3]; SS s[3];
    for (int step = 0; step < 40; ++step) {
        int i = rng() % 3, j = rng() % 3; size_t n = rng() % 4 ? rng() % 12 : rng() % 300; int op = rng() % 30; ncase++;
        if (s[i].size() > 4000) { v[i].clear(); s[i].clear(); }
        char d[96]; snprintf(d, sizeof d, " %d:%d,%d,%zu", op, i, j, n); h += d;
        SS t = text(n); uint64_t q = spread();
        switch (op) {
            case 0: case 1: v[i].put(t.c_str()); s[i] += t; break;
            case 2: v[i].put('x'); s[i] += 'x'; break;
            case 3: v[i].put("lit"); s[i] += "lit"; break;
            case 4: v[i].put(v[j]); s[i] += SS(s[j]); break;
            case 5: v[i] += v[j]; s[i] += SS(s[j]); break;
            case 6: if (i != j) { v[i].put(v[j], ", ", t.c_str(), (uint32_t) q, '!'); s[i] += s[j] + ", " + t + std::to_string((uint32_t) q) + "!"; } break;
            case 7: v[i] = v[j]; s[i] = SS(s[j]); break;
            case 8: if (i != j) { v[i] = std::move(v[j]); s[i] = s[j]; s[j].clear(); } break;
            case 9: v[i] = t.c_str(); s[i] = t; break;
            case 10: v[i].swap(v[j]); s[i].swap(s[j]); break;
            case 11: v[i].resize(n, 'r'); s[i].resize(n, 'r'); break;
            case 12: v[i].clear(); s[i].clear(); break;
            case 13: v[i].reserve(n); if (v[i].capacity() < n) report("string reserve(%zu) capacity %zu", n, v[i].capacity()); break;
            case 14: v[i].indent(n); s[i] += SS(n, ' '); break;
            case 15: { S c = v[i] + t.c_str(); if (!same(c, s[i] + t)) report("operator+ (string, text) after%s", h.c_str()); break; }
            case 16: { S c = t.c_str() + v[i]; if (!same(c, t + s[i])) report("operator+ (text, string) after%s", h.c_str()); break; }
            case 17: { S c(v[i]); if (!same(c, s[i])) report("string copy after%s", h.c_str()); S m = std::move(c) + t.c_str(); if (!same(m, s[i] + t)) report("operator+ (string &&, text) after%s", h.c_str()); break; }
            case 18: { S c(t.c_str(), n); if (!same(c, t)) report("string(ptr, %zu)", n); S m(std::move(c)); if (!same(m, t) || c.size()) report("string move constructor"); break; }
            case 19: if ((v[i] == v[j]) != (s[i] == s[j]) || (v[i] != v[j]) != (s[i] != s[j])) report("string comparison after%s", h.c_str()); break;
            case 20: if (!s[i].empty()) { S c(v[i]); size_t k = rng() % c.size(); c[k] = c[k] == 'a' ? 'b' : 'a'; if (c == v[i] || !(c != v[i])) report("strings differing at %zu of %zu compare equal", k, c.size()); } break;
            case 21: num<uint8_t>(v[i], s[i], q); break; case 22: num<uint16_t>(v[i], s[i], q); break; case 23: num<uint32_t>(v[i], s[i], q); break; case 24: num<uint64_t>(v[i], s[i], q); break;
            case 25: num<int8_t>(v[i], s[i], q); num<int16_t>(v[i], s[i], q); break; case 26: num<int32_t>(v[i], s[i], q); num<int64_t>(v[i], s[i], (rng() & 1) ? q : -q); break;
            case 27: { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long) q); v[i].put((void *) q); s[i] += b; break; }
            case 28: fl((double) (int64_t) q * (1.0 / 1024) * ((rng() & 1) ? 1e-20 : 1)); fl(-1.23457e-300); fl(1.0 / 0.0); break;
            case 29: v[i].put(true, false); s[i] += "10"; break;
        }
        for (int k = 0; k < 3; ++k) if (!same(v[k], s[k])) { report("string %d is \"%.80s\" instead of \"%.80s\" after operations (op:i,j,n)%s", k, v[k].c_str(), s[k].c_str(), h.c_str()); return; }
    }
}
static void pointers() {
    using P = drjit::unique_ptr<E>;
    P p[3]; int val[3] = { -1, -1, -1 };
    for (int step = 0; step < 30; ++step) {
        int i = rng() % 3, j = rng() % 3, x = rng() % 100; ncase++;
        switch (rng() % 8) {
            case 0: p[i] = drjit::make_unique<E>(x); val[i] = x; break;
            case 1: p[i] = std::move(p[j]); if (i != j) { val[i] = val[j]; val[j] = -1; } break;
            case 2: p[i].reset(); val[i] = -1; break;
            case 3: p[i].reset(new E(x)); val[i] = x; break;
            case 4: { E *e = p[i].release(); if ((e ? *e->p : -1) != val[i]) report("unique_ptr::release"); delete e; val[i] = -1; break; }
            case 5: { P q(std::move(p[i])); if ((q ? *q->p : -1) != val[i]) report("unique_ptr move constructor"); val[i] = -1; break; }
            case 6: { drjit::unique_ptr<E[]> a(new E[4]); if (*a[rng() % 4].p != 0) report("unique_ptr<T[]>"); drjit::unique_ptr<E[]> b(std::move(a)); if (a || !b) report("unique_ptr<T[]> move"); break; }
            default: break;
        }
        long want = 0;
        for (int k = 0; k < 3; ++k) { want += val[k] >= 0; if ((bool) p[k] != (val[k] >= 0) || !p[k] != (val[k] < 0) || (p[k] && *p[k].get()->p != val[k])) report("unique_ptr %d holds the wrong object", k); }
        if (live != want) { report("unique_ptr: %ld live objects instead of %ld", live, want); return; }
    }
}
static void tuples() {
    uint32_t a = rng(); int x = rng() % 100; uint8_t b = rng(); ncase++;
    drjit::tuple<uint32_t, E, uint8_t> t(a, E(x), b), u; u = t;
    if (drjit::get<0>(u) != a || *drjit::get<1>(u).p != x || drjit::get<2>(u) != b) report("tuple assignment");
    uint32_t c; E e; uint8_t d; drjit::tie(c, e, d) = t; if (c != a || *e.p != x || d != b) report("tie");
    auto [p, q, r] = t; if (p != a || *q.p != x || r != b) report("structured binding");
    drjit::tuple<uint64_t, int> w(drjit::make_tuple(a, (int8_t) b)); if (drjit::get<0>(w) != a || drjit::get<1>(w) != (int8_t) b) report("tuple conversion");
}
int main() {
    const char *e = getenv("VERIF_SEED"), *t = getenv("VERIF_TIER");
    seed = 0x9E3779B97F4A7C15ull * (uint64_t) (atoi(e ? e : "1") + 1);
    int N = t && t[0] == 't' ? 60000 : 6000;
    for (int i = 0; i < N && nbad < 10; ++i) { vectors(); if (nbad) break; strings(); pointers(); tuples(); if (live) { report("%ld elements alive at the end", live); break; } }
    printf("COUNT: %llu operations\n", (unsigned long long) ncase);
    return nbad ? 1 : 0;
}
