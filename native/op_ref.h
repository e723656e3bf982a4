// reference semantics of the traced operations and the search drivers of C01 (simplification) and C02 (constant folding)
#include "full.h"
using drjit::half;
template <typename T> constexpr bool isf = std::is_floating_point_v<T> || std::is_same_v<T, half>;
template <typename T> struct Up { using type = T; }; template <> struct Up<half> { using type = float; }; template <typename T> using up = typename Up<T>::type;
template <typename T> struct Wd { using type = T; }; template <> struct Wd<int32_t> { using type = int64_t; }; template <> struct Wd<uint32_t> { using type = uint64_t; };
template <typename T> static std::string str(T v) { char b[64]; if constexpr (isf<T>) snprintf(b, 64, "%g", (double) (up<T>) v); else if constexpr (std::is_signed_v<T>) snprintf(b, 64, "%lld", (long long) v); else snprintf(b, 64, "%llu", (unsigned long long) v); return b; }
template <typename T> static uint64_t bits(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof(T)); return r; }
template <typename T> static bool isnan_(T v) { if constexpr (isf<T>) return std::isnan((up<T>) v); else return false; }
template <typename T> static bool zero_(T v) { if constexpr (isf<T>) return (up<T>) v == 0; else return v == (T) 0; }
// comparison: 0 exact (any NaN), 1 sign of zero is free, 2 a few units in the last place
template <typename T> static bool same(T a, T b, int tol) {
    if (bits(a) == bits(b)) return true;
    if constexpr (isf<T>) { if (isnan_(a) && isnan_(b)) return true; if (tol && zero_(a) && zero_(b)) return true;
        if (tol == 2) { double x = (double) (up<T>) a, y = (double) (up<T>) b, e = std::is_same_v<T, half> ? 2e-3 : std::is_same_v<T, float> ? 5e-7 : 1e-15; if (std::isinf(x) || std::isinf(y) || std::isnan(x) || std::isnan(y)) return false; return std::fabs(x - y) <= e * std::max(std::fabs(x), std::fabs(y)) + (std::is_same_v<T, half> ? 2e-7 : 0); } }
    return false;
}
static const char *ON[] = { "neg","not","sqrt","abs","add","sub","mul","div","mod","mul_hi","mul_wide","fma","min","max","fmin","fmax","copysign","ceil","floor","round","trunc","eq","neq","lt","le","gt","ge","select","popc","clz","ctz","brev","and","or","xor","shl","shr","rcp","rsqrt","sin","cos","exp2","log2","tanh" };
static int nops(JitOp o) { switch (o) { case JitOp::Neg: case JitOp::Not: case JitOp::Sqrt: case JitOp::Abs: case JitOp::Ceil: case JitOp::Floor: case JitOp::Round: case JitOp::Trunc: case JitOp::Popc: case JitOp::Clz: case JitOp::Ctz: case JitOp::Brev: case JitOp::Rcp: case JitOp::Rsqrt: case JitOp::Sin: case JitOp::Cos: case JitOp::Exp2: case JitOp::Log2: case JitOp::Tanh: return 1; case JitOp::Fma: case JitOp::Select: return 3; default: return 2; } }
template <typename T> static bool applies(JitOp o) {
    constexpr bool b = std::is_same_v<T, bool>, f = isf<T>, i = !b && !f;
    switch (o) { case JitOp::Neg: case JitOp::Abs: case JitOp::Add: case JitOp::Sub: case JitOp::Mul: case JitOp::Div: case JitOp::Fma: case JitOp::Min: case JitOp::Max: case JitOp::FMin: case JitOp::FMax: case JitOp::Copysign: return !b;
        case JitOp::Sqrt: case JitOp::Rcp: case JitOp::Rsqrt: case JitOp::Ceil: case JitOp::Floor: case JitOp::Round: case JitOp::Trunc: return f;
        case JitOp::Mod: case JitOp::Popc: case JitOp::Clz: case JitOp::Ctz: case JitOp::Brev: case JitOp::Shl: case JitOp::Shr: return i;
        case JitOp::MulHi: return i && sizeof(T) >= 4; case JitOp::MulWide: return i && sizeof(T) == 4;
        case JitOp::Not: case JitOp::And: case JitOp::Or: case JitOp::Xor: case JitOp::Eq: case JitOp::Neq: case JitOp::Lt: case JitOp::Le: case JitOp::Gt: case JitOp::Ge: case JitOp::Select: return true; default: return false; } }
static bool iscmp(JitOp o) { return o >= JitOp::Eq && o <= JitOp::Ge; }
template <typename T> static T frombits(uint64_t x) { T r; memcpy(&r, &x, sizeof(T)); return r; }
// value of the operation; ok = false: not specified for these operands
template <typename T> static uint64_t ref(JitOp o, T a, T b, T c, bool m, bool &ok, int &tol, bool strict) {
    ok = true; tol = 0; using U = up<T>; constexpr int w = std::is_same_v<T, bool> ? 1 : 8 * sizeof(T);
    auto R = [](T v) { return bits(v); };
    switch (o) { case JitOp::Eq: return (U) a == (U) b; case JitOp::Neq: return (U) a != (U) b; case JitOp::Lt: return (U) a < (U) b; case JitOp::Le: return (U) a <= (U) b; case JitOp::Gt: return (U) a > (U) b; case JitOp::Ge: return (U) a >= (U) b;
        case JitOp::Select: return R(m ? a : b); case JitOp::And: return bits(a) & bits(b); case JitOp::Or: return bits(a) | bits(b); case JitOp::Xor: return bits(a) ^ bits(b); case JitOp::Not: return ~bits(a) & (w == 64 ? ~0ull : (1ull << w) - 1); default: break; }
    if constexpr (std::is_same_v<T, bool>) { ok = false; return 0; }
    else if constexpr (isf<T>) { U x = (U) a, y = (U) b, z = (U) c;
        switch (o) { case JitOp::Neg: return bits(a) ^ (1ull << (w - 1)); case JitOp::Abs: return bits(a) & ~(1ull << (w - 1)); case JitOp::Copysign: if (isnan_(a) || isnan_(b)) ok = false; return (bits(a) & ~(1ull << (w - 1))) | (bits(b) & (1ull << (w - 1)));
            case JitOp::Add: tol = !strict; return R((T) (x + y)); case JitOp::Sub: tol = !strict; return R((T) (x - y)); case JitOp::Mul: return R((T) (x * y));
            case JitOp::Div: tol = strict ? 0 : 2; if (!strict) { U r = (U) 1 / y; if (std::isinf(r) || (r != 0 && !std::isnormal((U) (T) r)) || (r == 0 && !std::isinf(y)) || (!std::isnormal((U) (T) (x / y)) && x != 0)) ok = false; } return R((T) (x / y));
            case JitOp::Fma: tol = !strict; return R((T) std::fma(x, y, z)); case JitOp::Sqrt: return R((T) std::sqrt(x)); case JitOp::Rcp: return R((T) ((U) 1 / x));
            case JitOp::Rsqrt: tol = 2; if (!(x > 0) || !std::isnormal((U) (T) ((U) 1 / x))) ok = false; return R((T) ((U) 1 / std::sqrt(x)));
            case JitOp::Ceil: return R((T) std::ceil(x)); case JitOp::Floor: return R((T) std::floor(x)); case JitOp::Round: return R((T) std::rint(x)); case JitOp::Trunc: return R((T) std::trunc(x));
            case JitOp::Min: case JitOp::Max: if (isnan_(a) || isnan_(b)) return R((T) std::numeric_limits<float>::quiet_NaN()); [[fallthrough]];
            case JitOp::FMin: case JitOp::FMax: { bool mx = o == JitOp::Max || o == JitOp::FMax; tol = (o == JitOp::FMin || o == JitOp::FMax); if (isnan_(a)) return R(b); if (isnan_(b)) return R(a); if (x == y) return R(std::signbit(x) != mx ? a : b); return R((x < y) != mx ? a : b); }
            default: ok = false; return 0; } }
    else { using S = std::make_signed_t<T>; using V = std::make_unsigned_t<T>; using W = typename Wd<T>::type; uint64_t x = (uint64_t) a, y = (uint64_t) b;
        switch (o) { case JitOp::Neg: return R((T) (0 - x)); case JitOp::Abs: return R(a < 0 ? (T) (0 - x) : a); case JitOp::Copysign: { if (!std::is_signed_v<T>) return R(a); T p = a < 0 ? (T) (0 - x) : a; return R(b < 0 ? (T) (0 - (uint64_t) p) : p); }
            case JitOp::Add: return R((T) (x + y)); case JitOp::Sub: return R((T) (x - y)); case JitOp::Mul: return R((T) (x * y)); case JitOp::Fma: return R((T) (x * y + (uint64_t) c));
            case JitOp::Div: if (b == 0) { ok = false; return 0; } if (std::is_signed_v<T> && b == (T) -1) { ok = strict || a != std::numeric_limits<T>::min(); return R((T) (0 - x)); } return R((T) (a / b)); case JitOp::Mod: if (b == 0) { ok = false; return 0; } if (std::is_signed_v<T> && b == (T) -1) { ok = strict || a != std::numeric_limits<T>::min(); return 0; } return R((T) (a % b));
            case JitOp::MulHi: if constexpr (sizeof(T) == 4) return (uint32_t) ((uint64_t) ((W) a * (W) b) >> 32); else if constexpr (sizeof(T) == 8) return std::is_signed_v<T> ? (uint64_t) (((__int128) (int64_t) a * (int64_t) b) >> 64) : (uint64_t) (((unsigned __int128) x * y) >> 64); else return 0;
            case JitOp::MulWide: return (uint64_t) ((W) a * (W) b); case JitOp::Min: case JitOp::FMin: return R(b < a ? b : a); case JitOp::Max: case JitOp::FMax: return R(a < b ? b : a);
            case JitOp::Popc: return (uint64_t) __builtin_popcountll((uint64_t) (V) a); case JitOp::Clz: { int n = 0; for (int i = w - 1; i >= 0 && !((V) a >> i & 1); --i) n++; return (uint64_t) n; } case JitOp::Ctz: { int n = 0; for (int i = 0; i < w && !((V) a >> i & 1); ++i) n++; return (uint64_t) n; }
            case JitOp::Brev: { uint64_t r = 0; for (int i = 0; i < w; ++i) r |= (uint64_t) ((V) a >> i & 1) << (w - 1 - i); return r; }
            case JitOp::Shl: if ((V) b >= w) { ok = false; return 0; } return R((T) ((V) a << b)); case JitOp::Shr: if ((V) b >= w) { ok = false; return 0; } return R((T) (a >> b)); default: ok = false; return 0; } (void) sizeof(S); }
}
template <typename T> static std::vector<T> samples(int nrnd) {
    std::vector<T> r; if constexpr (std::is_same_v<T, bool>) return { false, true };
    else if constexpr (isf<T>) { using L = std::numeric_limits<up<T>>; float big = std::is_same_v<T, half> ? 60000.f : 1e30f, sm = std::is_same_v<T, half> ? 6e-8f : 1e-30f; for (float f : { 0.f, -0.f, 1.f, -1.f, 2.f, .5f, -3.f, 0.1f, 1.5f, 2.5f, -2.5f, 1e3f, big, sm, -sm }) r.push_back((T) (up<T>) f); r.push_back((T) L::infinity()); r.push_back((T) -L::infinity()); r.push_back((T) L::quiet_NaN()); while (nrnd--) r.push_back((T) (up<T>) (std::ldexp((double) (int64_t) rng(), -63 + (int) (rng() % 12)))); }
    else { using L = std::numeric_limits<T>; for (int64_t v : { 0, 1, -1, 2, 3, 5, 7, 8, 16, -2, -7, 64, 100 }) r.push_back((T) v); r.push_back(L::min()); r.push_back(L::max()); r.push_back((T) (L::min() + 1)); r.push_back((T) ((uint64_t) 1 << (8 * sizeof(T) - 2))); while (nrnd--) r.push_back((T) (rng() >> (rng() % 60))); }
    return r;
}
template <typename F> static void types(F f) { f((bool) 0); f((int8_t) 0); f((uint8_t) 0); f((int16_t) 0); f((uint16_t) 0); f((int32_t) 0); f((uint32_t) 0); f((int64_t) 0); f((uint64_t) 0); f(half()); f(0.f); f(0.0); }
template <typename T> static uint64_t rd(const Var &v, size_t i = 0) { T r; jit_var_read(v, i, &r); return bits(r); }
template <typename S, typename T> static bool conv(S v, T &o) {
    if constexpr (std::is_same_v<T, bool>) { o = !zero_(v); return true; }
    else if constexpr (isf<S> && !isf<T>) { up<S> x = (up<S>) v; if (std::isnan(x)) return false; x = std::trunc(x); double lo = (double) std::numeric_limits<T>::min(), hi = std::ldexp(1.0, 8 * sizeof(T) - (std::is_signed_v<T> ? 1 : 0)); if (!((double) x >= lo && (double) x < hi)) return false; o = (T) x; return true; }
    else if constexpr (isf<S> || isf<T>) { if constexpr (std::is_same_v<S, half> || std::is_same_v<T, half>) o = (T) (up<T>) (float) (up<S>) v; else o = (T) v; return true; }
    else { o = (T) v; return true; }
}
