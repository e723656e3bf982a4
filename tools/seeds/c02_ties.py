property="C02"
full=True
edits=[("src/op.cpp","T eval_round(T value) { return T(std::rint(value)); }","T eval_round(T value) { return T(std::round(value)); }")]
needs="rounding a literal half way between two integers, the lower of which is even"
breaks="folded round() rounds ties away from zero, kernels round ties to even"
demo=r'''
#include "full.h"
template <typename T> bool t() { bool ok = true; for (T x : { (T) 0.5f, (T) 2.5f, (T) -1.5f, (T) -4.5f, (T) 3.f, (T) 0.49f }) { T a = get<T>(Var(jit_var_round(lit<T>(x))))[0], b = get<T>(Var(jit_var_round(arr<T>({ x }))))[0]; if (a != b) { printf("round(%g): literal %g, array %g\n", (double) x, (double) a, (double) b); ok = false; } } return ok; }
int main() { full_init(); return !(t<float>() && t<double>()); }
'''
