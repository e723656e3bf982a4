property="C07"
edits=[("src/var.cpp","jitc_reduce_scalar_mul(vt, trailer_size, &value_trailer);","jitc_reduce_scalar_mul(vt, block_size, &value_trailer);")]
needs="a block-wise product of a literal (constant) array whose size is no multiple of the block size"
breaks="the last, shorter block of the product of a literal array is raised to the power of the full block size"
full=True
demo=r'''
#include "full.h"
int main() {
    full_init();
    for (uint32_t size = 1; size < 20; ++size) for (uint32_t bs = 1; bs <= size; ++bs) {
        Var v = lit<uint32_t>(3, size), o(jit_var_block_reduce(ReduceOp::Mul, v, bs, 0)); std::vector<uint32_t> r = get<uint32_t>(o);
        for (uint32_t b = 0; b < r.size(); ++b) { uint32_t e = 1; for (uint32_t j = b * bs; j < std::min(size, (b + 1) * bs); ++j) e *= 3;
            if (r[b] != e) { printf("size %u, block size %u, block %u: %u instead of %u\n", size, bs, b, r[b], e); _exit(1); } }
    }
    _exit(0);
}
'''
