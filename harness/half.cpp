// C12: every conversion / operator of drjit::half, instantiated from the real header
#define DRJIT_INCLUDE_FLOAT16_FALLBACK 1
#include <drjit-core/half.h>
using drjit::half;
static inline half H(uint16_t v) { return half::from_binary(v); }
extern "C" {
uint16_t h_from_f32_fb(float f) { return half::float32_to_float16_fallback(f); }
float    h_to_f32_fb(uint16_t v) { return half::float16_to_float32_fallback(v); }
uint16_t h_from_f32(float f) { return half::float32_to_float16(f); }
float    h_to_f32(uint16_t v) { return half::float16_to_float32(v); }
uint16_t h_ctor_f32(float f) { return half(f).value; }
uint16_t h_ctor_f64(double f) { return half(f).value; }
uint16_t h_ctor_i32(int32_t f) { return half(f).value; }
uint16_t h_ctor_u32(uint32_t f) { return half(f).value; }
uint16_t h_ctor_u8(uint8_t f) { return half(f).value; }
uint16_t h_ctor_i16(int16_t f) { return half(f).value; }
uint16_t h_ctor_u64(uint64_t f) { return half(f).value; }
uint16_t h_ctor_bool(bool f) { return half(f).value; }
float    h_op_float(uint16_t v) { return (float) H(v); }
uint16_t h_copy(uint16_t v) { half a = H(v), b(a), c = b; half d; d = c; return d.value; }
uint16_t h_neg(uint16_t a) { return (-H(a)).value; }
#define ARITH(N, OP) \
uint16_t h_##N##_h(uint16_t a, uint16_t b) { return (H(a) OP H(b)).value; } \
uint16_t h_##N##_f(uint16_t a, float b) { return (H(a) OP b).value; } \
uint16_t h_##N##_i(uint16_t a, int b) { return (H(a) OP b).value; } \
uint16_t h_##N##eq_h(uint16_t a, uint16_t b) { half x = H(a); half &r = (x OP##= H(b)); return (&r == &x) ? x.value : (uint16_t) ~x.value; } \
uint16_t h_##N##eq_f(uint16_t a, float b) { half x = H(a); x OP##= b; return x.value; }
ARITH(add, +) ARITH(sub, -) ARITH(mul, *) ARITH(div, /)
#define CMP(N, OP) \
bool h_##N##_h(uint16_t a, uint16_t b) { return H(a) OP H(b); } \
bool h_##N##_f(uint16_t a, float b) { return H(a) OP b; } \
bool h_##N##_i(uint16_t a, int b) { return H(a) OP b; }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(gt, >) CMP(le, <=) CMP(ge, >=)
uint16_t h_const(int i) {
    using C = drjit::detail::constants<half>;
    switch (i) {
        case 0: return C::E.value; case 1: return C::LogTwo.value; case 2: return C::InvLogTwo.value;
        case 3: return C::Pi.value; case 4: return C::InvPi.value; case 5: return C::SqrtPi.value; case 6: return C::InvSqrtPi.value;
        case 7: return C::TwoPi.value; case 8: return C::InvTwoPi.value; case 9: return C::SqrtTwoPi.value; case 10: return C::InvSqrtTwoPi.value;
        case 11: return C::FourPi.value; case 12: return C::InvFourPi.value; case 13: return C::SqrtFourPi.value; case 14: return C::InvSqrtFourPi.value;
        case 15: return C::SqrtTwo.value; case 16: return C::InvSqrtTwo.value; case 17: return C::Infinity.value; case 18: return C::NaN.value; case 19: return C::OneMinusEpsilon.value;
        case 20: return drjit::detail::debug_init<half>::value.value;
    }
    return 0;
}
}
