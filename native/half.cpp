// replay / counterexample search for C12 against an independent integer oracle
#define DRJIT_INCLUDE_FLOAT16_FALLBACK 1
#include <drjit-core/half.h>
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <random>
using drjit::half;
static double h2d(uint16_t h) {
    int e = (h >> 10) & 31, m = h & 1023; double r;
    if (e == 31) r = m ? NAN : INFINITY; else if (e == 0) r = ldexp(m, -24); else r = ldexp(1024 + m, e - 25);
    return (h & 0x8000) ? -r : r;
}
static uint16_t d2h(float f) { // round to nearest even, via exact double arithmetic
    uint16_t sg = std::signbit(f) ? 0x8000 : 0; double a = fabs((double) f);
    if (std::isnan(f)) return 0x7e00;
    if (a >= 65520.0) return sg | 0x7c00;
    int e; if (a < ldexp(1, -14)) e = -24; else { frexp(a, &e); e -= 11; }
    double q = ldexp(a, -e); double n = nearbyint(q); // exact, RNE
    double v = ldexp(n, e);
    // find the encoding
    if (v == 0) return sg;
    if (v < ldexp(1, -14)) return sg | (uint16_t) ldexp(v, 24);
    int ee; double mm = frexp(v, &ee); // v = mm * 2^ee, mm in [.5,1)
    return sg | (uint16_t) (((ee + 14) << 10) + ((int) ldexp(mm, 11) - 1024));
}
static bool nanh(uint16_t h) { return (h & 0x7fff) > 0x7c00; }
static bool same(uint16_t a, uint16_t b) { return a == b || (nanh(a) && nanh(b)); }
static int bad = 0; static unsigned long long cnt = 0;
static void ck(const char *w, uint16_t got, uint16_t exp, double x, double y) {
    cnt++; if (!same(got, exp) && bad++ < 10) printf("CE: %s(%a, %a) = 0x%04x, expected 0x%04x\n", w, x, y, got, exp);
}
static void ckb(const char *w, bool got, bool exp, double x, double y) {
    cnt++; if (got != exp && bad++ < 10) printf("CE: %s(%a, %a) = %d, expected %d\n", w, x, y, got, exp);
}
static float bitsf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static void conv(float f) {
    ck("float32_to_float16", half::float32_to_float16(f), d2h(f), f, 0);
    ck("float32_to_float16_fallback", half::float32_to_float16_fallback(f), d2h(f), f, 0);
    ck("half(float)", half(f).value, d2h(f), f, 0);
}
int main() {
    const char *s = getenv("VERIF_SEED"); std::mt19937 rng(s ? atoi(s) : 1);
    bool th = getenv("VERIF_TIER") && getenv("VERIF_TIER")[0] == 't';
    for (uint32_t i = 0; i < 65536; ++i) {
        float a = half::float16_to_float32(i), b = half::float16_to_float32_fallback(i), c = (float) half::from_binary(i); double e = h2d(i);
        for (float x : { a, b, c }) { cnt++;
            if (!(std::isnan(e) ? std::isnan(x) : ((double) x == e && std::signbit(x) == std::signbit(e))) && bad++ < 10) printf("CE: float16_to_float32(0x%04x) = %a, expected %a\n", i, x, e); }
        ck("-half", (-half::from_binary(i)).value, i ^ 0x8000, e, 0);
        // values around every half and every midpoint
        if (!nanh(i)) { uint32_t u; float f = (float) e; memcpy(&u, &f, 4);
            for (int d = -2; d <= 2; ++d) { conv(bitsf(u + d)); conv(bitsf(u + 0x1000 + d)); conv(bitsf(u + 0x2000 + d)); }
            float nx = (float) h2d(i + 1); float mid = (f + nx) / 2; memcpy(&u, &mid, 4); for (int d = -2; d <= 2; ++d) conv(bitsf(u + d)); }
    }
    for (int i = 0; i < (th ? 200000000 : 3000000); ++i) { uint32_t u = rng(); if (i & 1) u = (u & 0x80ffffff) | ((rng() % 50 + 95) << 23 & 0x7f800000); conv(bitsf(u)); }
    conv(NAN); conv(-NAN); conv(INFINITY); conv(-INFINITY); conv(0.f); conv(-0.f); conv(bitsf(0x7f800001)); conv(bitsf(0xff800001));
    for (int i = 0; i < (th ? 40000000 : 1500000); ++i) {
        uint16_t a = rng(), b = rng(); if (i % 5 == 0) b = a; if (i % 7 == 0) a = "\0\x7c\0\xfc\0\0\0\x80\0\x3c\x01\x7c"[2 * (rng() % 6) + 1] << 8;
        half x = half::from_binary(a), y = half::from_binary(b); float fx = (float) h2d(a), fy = (float) h2d(b);
        #define AR(O) { ck("operator" #O, (x O y).value, d2h(fx O fy), fx, fy); half z = x; half &r = (z O##= y); ck("operator" #O "=", z.value, d2h(fx O fy), fx, fy); if (&r != &z && bad++ < 10) printf("CE: operator" #O "= does not return *this\n"); \
            float g = bitsf(rng()); ck("operator" #O "(half,float)", (x O g).value, d2h(fx O g), fx, g); int k = (int) rng() >> (rng() & 31); ck("operator" #O "(half,int)", (x O k).value, d2h(fx O (float) k), fx, k); }
        AR(+) AR(-) AR(*) AR(/)
        #define CM(O) { ckb("operator" #O, x O y, fx O fy, fx, fy); float g = (rng() & 1) ? fx : bitsf(rng()); ckb("operator" #O "(half,float)", x O g, fx O g, fx, g); int k = (int) (rng() % 9) - 4; ckb("operator" #O "(half,int)", x O k, fx O (float) k, fx, k); }
        CM(==) CM(!=) CM(<) CM(>) CM(<=) CM(>=)
        half cp = x; half as; as = cp; ck("copy", as.value, a, fx, 0);
        double d = (double) fx * 1.0000001; ck("half(double)", half(d).value, d2h((float) d), d, 0);
        int64_t k = (int64_t) (int) rng() >> (rng() % 40); ck("half(int)", half((int) k).value, d2h((float) (int) k), k, 0); ck("half(uint32)", half((uint32_t) k).value, d2h((float) (uint32_t) k), k, 0);
        uint64_t k6 = ((uint64_t) rng() << 32 | rng()) >> (rng() & 63); ck("half(uint64)", half(k6).value, d2h((float) k6), (double) k6, 0);
    }
    printf("COUNT: %llu comparisons\n", cnt);
    return bad ? 1 : 0;
}
