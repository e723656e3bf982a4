// C20 counterexample search: type tables and identities of src/var.cpp against std::numeric_limits and sampled values
#define STUB_NO_TASK
#include "jit_stubs.h"
#include "/repo/src/var.cpp"
#include "/repo/src/strbuf.cpp"
#include <limits>
#include <cmath>
Task *jitc_task = nullptr;
template <typename T> static uint64_t bits(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof(T)); return r; }
template <typename T> static T from(uint64_t b) { T v; memcpy(&v, &b, sizeof(T)); return v; }
static const char *ON[] = { "identity", "add", "mul", "min", "max", "and", "or" };
template <typename T, typename C> static void type(VarType vt, int w, uint64_t one, uint64_t mn, uint64_t mx, bool fl) {
    int t = (int) vt; uint64_t ones = w == 64 ? ~0ull : (1ull << w) - 1; ncase++;
    if (type_size[t] != sizeof(T)) report("type_size[%s] = %u, sizeof is %zu", type_name[t], type_size[t], sizeof(T));
    if (strtoul(type_size_str[t], 0, 10) != sizeof(T)) report("type_size_str[%s] = %s", type_name[t], type_size_str[t]);
    if (type_all_ones[t] != ones) report("type_all_ones[%s] = %llx", type_name[t], (long long) type_all_ones[t]);
    if (vt != VarType::Pointer && type_one[t] != one) report("type_one[%s] = %llx instead of %llx", type_name[t], (long long) type_one[t], (long long) one);
    if (type_min[t] != mn) report("type_min[%s] = %llx instead of %llx", type_name[t], (long long) type_min[t], (long long) mn);
    if (type_max[t] != mx) report("type_max[%s] = %llx instead of %llx", type_name[t], (long long) type_max[t], (long long) mx);
    for (int op = 1; op <= 6; ++op) {
        uint64_t id = jitc_reduce_identity(vt, (ReduceOp) op);
        if (id & ~ones) { report("identity of %s over %s is %llx: not a value of the type", ON[op], type_name[t], (long long) id); continue; }
        for (int k = 0; k < 200; ++k) {
            uint64_t x = k == 0 ? mn : k == 1 ? mx : k == 2 ? 0 : k == 3 ? one : k == 4 ? ones : rng() & ones; ncase++;
            if (op >= 5) { if ((op == 5 ? (id & x) : (id | x)) != x) report("identity of %s over %s is %llx: not neutral for %llx", ON[op], type_name[t], (long long) id, (long long) x); continue; }
            if (vt == VarType::Pointer && op == 2) continue;
            C i = (C) from<T>(id), v = (C) from<T>(x), r; if (v != v) continue;
            if (op == 1) r = w == 1 ? (C) (i || v) : (C) from<T>(bits((T) (fl ? i + v : (C) ((uint64_t) i + (uint64_t) v))));
            else if (op == 2) r = (C) from<T>(bits((T) (fl ? i * v : (C) ((uint64_t) i * (uint64_t) v))));
            else if (op == 3) r = v < i ? v : i; else r = i < v ? v : i;
            if (!(r == v)) { report("identity of %s over %s is %llx: not neutral for %llx", ON[op], type_name[t], (long long) id, (long long) x); break; }
        }
    }
    bool isf = fl, isb = vt == VarType::Bool, iss = !fl && !isb && vt != VarType::Pointer && std::numeric_limits<C>::is_signed, isu = !fl && !isb && vt != VarType::Pointer && !iss;
    if (jitc_is_float(vt) != isf || jitc_is_bool(vt) != isb || jitc_is_sint(vt) != iss || jitc_is_uint(vt) != isu || jitc_is_int(vt) != (iss || isu) || jitc_is_half(vt) != (fl && w == 16) || jitc_is_single(vt) != (fl && w == 32) || jitc_is_double(vt) != (fl && w == 64) || jitc_is_void(vt) || jitc_is_b8(vt) != ((iss || isu) && w == 8))
        report("type predicates of %s", type_name[t]);
    for (int k = 0; k < 60; ++k) {
        Variable v; v.type = t; v.kind = (uint32_t) (k & 1 ? VarKind::Literal : VarKind::Add); v.literal = k < 4 ? mn : k < 8 ? mx : k < 12 ? one : k < 16 ? 0 : k < 20 ? (1ull << (w - 1)) : rng() & ones;
        C x = (C) from<T>(v.literal); bool l = k & 1; ncase++;
        if (jitc_is_zero(&v) != (l && v.literal == 0) || jitc_is_any_zero(&v) != (l && x == 0) || jitc_is_one(&v) != (l && v.literal == one) || jitc_is_min(&v) != (l && v.literal == mn) || jitc_is_max(&v) != (l && v.literal == mx))
            report("literal predicates of %s for %llx (kind %u)", type_name[t], (long long) v.literal, v.kind);
    }
    static const char *ln[] = { "", "i1", "", "i8", "i8", "i16", "i16", "i32", "i32", "i64", "i64", "i64", "", "half", "float", "double" };
    static const char *lb[] = { "", "i1", "", "i8", "i8", "i16", "i16", "i32", "i32", "i64", "i64", "i64", "", "i16", "i32", "i64" };
    static const char *pn[] = { "", "pred", "", "s8", "u8", "s16", "u16", "s32", "u32", "s64", "u64", "u64", "", "f16", "f32", "f64" };
    static const char *pb[] = { "", "pred", "", "b8", "b8", "b16", "b16", "b32", "b32", "b64", "b64", "b64", "", "b16", "b32", "b64" };
    static const char *big[] = { 0, 0, 0, "i16", "i16", "i32", "i32", "i64", "i64", "i128", "i128", 0, 0, 0, 0, 0 };
    static const char *ab[] = { "", "i1", "", "i8", "i8", "i16", "i16", "i32", "i32", "i64", "i64", "i64", "", "f16", "f32", "f64" };
    static const char *tn[] = { "void", "bool", "base_int", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "pointer", "base_float", "float16", "float32", "float64" };
    static const char *sn[] = { "", "bool", "", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "ptr", "", "f16", "f32", "f64" };
    if (strcmp(type_name_llvm[t], ln[t]) || strcmp(type_name_llvm_bin[t], lb[t]) || strcmp(type_name_ptx[t], pn[t]) || strcmp(type_name_ptx_bin[t], pb[t]) || strcmp(type_name_ptx_bin2[t], t == 1 ? "b8" : pb[t]) || (big[t] && strcmp(type_name_llvm_big[t], big[t])) || strcmp(type_name_llvm_abbrev[t], ab[t]) || strcmp(type_name[t], tn[t]) || strcmp(type_name_short[t], sn[t]))
        report("type name tables of %s", type_name[t]);
    for (int u = 0; u < t; ++u) if (type_mangle[u] == type_mangle[t]) report("types %s and %s share the mangling code %c", type_name[u], type_name[t], type_mangle[t]);
}
template <typename T> static void integer(VarType vt) { type<T, T>(vt, sizeof(T) * 8, 1, bits(std::numeric_limits<T>::min()), bits(std::numeric_limits<T>::max()), false); }
int main() {
    init_seed();
    type<uint8_t, uint8_t>(VarType::Bool, 1, 1, 0, 1, false);
    integer<int8_t>(VarType::Int8); integer<uint8_t>(VarType::UInt8); integer<int16_t>(VarType::Int16); integer<uint16_t>(VarType::UInt16); integer<int32_t>(VarType::Int32); integer<uint32_t>(VarType::UInt32); integer<int64_t>(VarType::Int64); integer<uint64_t>(VarType::UInt64);
    integer<uint64_t>(VarType::Pointer);
    type<drjit::half, float>(VarType::Float16, 16, 0x3c00, 0xfc00, 0x7c00, true);
    type<float, float>(VarType::Float32, 32, bits(1.f), bits(-INFINITY), bits(INFINITY), true);
    type<double, double>(VarType::Float64, 64, bits(1.0), bits(-(double) INFINITY), bits((double) INFINITY), true);
    if (type_size[0] || type_size[2] || type_size[12] || !jitc_is_void(VarType::Void)) report("types without values");
    return done("values");
}
