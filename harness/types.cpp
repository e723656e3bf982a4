// C20: type tables (src/var.cpp) and type predicates (src/internal.h): verbatim include
#include "/repo/src/var.cpp"
extern "C" {
uint32_t w_size(uint32_t t) { return type_size[t]; }
const char *w_size_str(uint32_t t) { return type_size_str[t]; }
uint64_t w_ones(uint32_t t) { return type_all_ones[t]; }
uint64_t w_one(uint32_t t) { return type_one[t]; }
uint64_t w_min(uint32_t t) { return type_min[t]; }
uint64_t w_max(uint32_t t) { return type_max[t]; }
char w_mangle(uint32_t t) { return type_mangle[t]; }
const char *w_llvm(uint32_t t) { return type_name_llvm[t]; }
const char *w_llvm_bin(uint32_t t) { return type_name_llvm_bin[t]; }
const char *w_llvm_big(uint32_t t) { return type_name_llvm_big[t]; }
const char *w_llvm_abbrev(uint32_t t) { return type_name_llvm_abbrev[t]; }
const char *w_ptx(uint32_t t) { return type_name_ptx[t]; }
const char *w_ptx_bin(uint32_t t) { return type_name_ptx_bin[t]; }
const char *w_ptx_bin2(uint32_t t) { return type_name_ptx_bin2[t]; }
const char *w_name(uint32_t t) { return type_name[t]; }
const char *w_short(uint32_t t) { return type_name_short[t]; }
uint64_t w_identity(uint32_t t, uint32_t op) { return jitc_reduce_identity((VarType) t, (ReduceOp) op); }
bool w_is_arithmetic(uint32_t t) { return jitc_is_arithmetic((VarType) t); }
bool w_is_float(uint32_t t) { return jitc_is_float((VarType) t); }
bool w_is_half(uint32_t t) { return jitc_is_half((VarType) t); }
bool w_is_single(uint32_t t) { return jitc_is_single((VarType) t); }
bool w_is_double(uint32_t t) { return jitc_is_double((VarType) t); }
bool w_is_bool(uint32_t t) { return jitc_is_bool((VarType) t); }
bool w_is_sint(uint32_t t) { return jitc_is_sint((VarType) t); }
bool w_is_uint(uint32_t t) { return jitc_is_uint((VarType) t); }
bool w_is_int(uint32_t t) { return jitc_is_int((VarType) t); }
bool w_is_b8(uint32_t t) { return jitc_is_b8((VarType) t); }
bool w_is_void(uint32_t t) { return jitc_is_void((VarType) t); }
#define VP(name) bool w_v_##name(uint32_t t, uint32_t kind, uint64_t lit) { Variable v; v.type = t; v.kind = kind; v.literal = lit; return jitc_##name(&v); }
VP(is_arithmetic) VP(is_float) VP(is_half) VP(is_single) VP(is_double) VP(is_bool) VP(is_sint) VP(is_uint) VP(is_int) VP(is_void)
VP(is_zero) VP(is_any_zero) VP(is_one) VP(is_min) VP(is_max)
uint32_t w_count() { return (uint32_t) VarType::Count; }
// layout facts of the C++ types themselves (compiler-evaluated)
uint32_t w_sizeof(uint32_t t) {
    switch ((VarType) t) {
        case VarType::Bool: return sizeof(bool); case VarType::Int8: return sizeof(int8_t); case VarType::UInt8: return sizeof(uint8_t);
        case VarType::Int16: return sizeof(int16_t); case VarType::UInt16: return sizeof(uint16_t); case VarType::Int32: return sizeof(int32_t); case VarType::UInt32: return sizeof(uint32_t);
        case VarType::Int64: return sizeof(int64_t); case VarType::UInt64: return sizeof(uint64_t); case VarType::Pointer: return sizeof(void *);
        case VarType::Float16: return sizeof(drjit::half); case VarType::Float32: return sizeof(float); case VarType::Float64: return sizeof(double); default: return 0;
    }
}
}
