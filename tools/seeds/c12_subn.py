property="C12"
edits=[("include/drjit-core/half.h","is_sub = bits < min_norm;","is_sub = bits <= min_norm;"),("include/drjit-core/half.h","bits += (bits >> sig_diff) & 1;              // add tie breaking bias","bits += (bits >> (sig_diff + 1)) & 1;        // add tie breaking bias")]
needs="single precision values exactly half-way between two representable half precision values, software conversion path"
breaks="ties are no longer rounded to even by the portable float32 to float16 conversion"
stubs=False
demo=r'''
#define DRJIT_INCLUDE_FLOAT16_FALLBACK
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <drjit-core/half.h>
int main() {
    float f = 1.f + 0x1p-11f; uint16_t a = drjit::half::float32_to_float16_fallback(f);
    float g = 1.f + 3 * 0x1p-11f; uint16_t b = drjit::half::float32_to_float16_fallback(g);
    if (a != 0x3c00 || b != 0x3c02) { printf("%04x %04x\n", a, b); return 1; }
    return 0;
}
'''
