// C02 counterexample search: folded constants against reference semantics
#include "op_ref.h"
int main() { full_init(); int nr = g_thorough ? 40 : 6;
    types([&](auto t0) { using T = decltype(t0); auto s = samples<T>(nr); const char *tn = type_name[(int) VT<T>::v];
        for (uint32_t k = 0; k < (uint32_t) JitOp::Sin; ++k) { JitOp op = (JitOp) k; if (!applies<T>(op)) continue; int n = nops(op);
            auto one = [&](T a, T b, T c, bool m) { bool ok; int tol; uint64_t want = ref<T>(op, a, b, c, m, ok, tol, true); if (!ok) return; ncase++;
                uint32_t d[3]; Var va = lit<T>(a), vb = lit<T>(b), vc = lit<T>(c), vm = lit<bool>(m); if (op == JitOp::Select) d[0] = vm, d[1] = va, d[2] = vb; else d[0] = va, d[1] = vb, d[2] = vc;
                Var r(jit_var_op(op, d)); if (jit_var_state(r) != VarState::Literal) { report("%s of %s literals is not folded", ON[k], tn); return; }
                uint64_t raw = jitc_var(r)->literal; size_t rs = type_size[(int) jit_var_type(r)]; if (rs < 8 && raw >> (8 * rs)) { report("%s(%s, %s) %s: payload has bits above the type's width", ON[k], str(a).c_str(), str(b).c_str(), tn); return; }
                bool good = iscmp(op) || op == JitOp::MulWide ? raw == want : same<T>(frombits<T>(raw), frombits<T>(want), tol);
                if (!good) report("%s(%s, %s, %s%s) of %s literals was folded to 0x%llx, expected 0x%llx", ON[k], str(a).c_str(), n > 1 ? str(b).c_str() : "", op == JitOp::Fma ? str(c).c_str() : "", op == JitOp::Select ? (m ? "true" : "false") : "", tn, (unsigned long long) raw, (unsigned long long) want); };
            for (size_t i = 0; i < s.size(); ++i) { if (n == 1) { one(s[i], s[i], s[i], true); continue; } for (size_t j = 0; j < s.size(); ++j) { if (op == JitOp::Fma) { for (int q = 0; q < 4; ++q) one(s[i], s[j], s[rng() % s.size()], true); } else if (op == JitOp::Select) { one(s[i], s[j], s[j], true); one(s[i], s[j], s[j], false); } else one(s[i], s[j], s[j], true); } } }
        types([&](auto u0) { using U = decltype(u0); for (T v : s) { U w; if (conv<T, U>(v, w)) { ncase++; Var r(jit_var_cast(lit<T>(v), VT<U>::v, 0)); uint64_t raw = jitc_var(r)->literal; if (jit_var_state(r) != VarState::Literal || !(same<U>(frombits<U>(raw), w, 0)) || (sizeof(U) < 8 && raw >> (8 * sizeof(U)))) report("conversion of the %s literal %s to %s: 0x%llx, expected %s", tn, str(v).c_str(), type_name[(int) VT<U>::v], (unsigned long long) raw, str(w).c_str()); }
            if (sizeof(T) == sizeof(U) && std::is_same_v<T, bool> == std::is_same_v<U, bool>) { ncase++; Var r(jit_var_cast(lit<T>(v), VT<U>::v, 1)); uint64_t raw = jitc_var(r)->literal; if (raw != bits(v)) report("bit cast of the %s literal %s to %s: 0x%llx", tn, str(v).c_str(), type_name[(int) VT<U>::v], (unsigned long long) raw); } } }); });
    // broadcast: literals of larger size
    for (uint32_t n : { 2u, 7u, 100u }) { Var a = lit<uint32_t>(3, n), b = lit<uint32_t>(4), r; uint32_t d[2] = { a, b }; r = Var(jit_var_op(JitOp::Add, d)); ncase++; if (jit_var_size(r) != n) report("sum of literals of size %u and 1 has size %zu", n, jit_var_size(r)); auto g = get<uint32_t>(r); for (auto x : g) if (x != 7) { report("sum of literals of size %u: wrong entry", n); break; } }
    return full_done("folded constants"); }
