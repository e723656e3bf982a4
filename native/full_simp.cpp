// C01 counterexample search: results of simplified operations (one operand a literal / the same variable twice) against reference semantics
#include "op_ref.h"
int main() { full_init(); full_target(); int nr = g_thorough ? 30 : 4;
    for (int fast = 0; fast < 2; ++fast) { jit_set_flag(JitFlag::FastMath, fast);
    types([&](auto t0) { using T = decltype(t0); if (fast && isf<T>) return; auto s = samples<T>(nr); const char *tn = type_name[(int) VT<T>::v];
        struct P { Var r; JitOp op; int mode; T l, l2; }; std::vector<P> ps; Var A = arr<T>(s); std::vector<bool> mb(s.size()); for (size_t i = 0; i < mb.size(); ++i) mb[i] = i % 3 != 0; Var M = arr<bool>(mb); std::vector<T> s2 = s; std::reverse(s2.begin(), s2.end()); Var B = arr<T>(s2);
        auto add = [&](JitOp op, int mode, T l, T l2) { Var L = lit<T>(l, 1 + (s.size() - 1) * (rng() % 2)), L2 = lit<T>(l2); uint32_t d[3] = { A, A, A };
            switch (mode) { case 0: d[1] = L; d[2] = B; break; case 1: d[0] = L; d[1] = A; d[2] = B; break; case 2: d[1] = A; d[2] = B; break; case 3: d[0] = A; d[1] = B; d[2] = L; break; case 4: d[0] = L; d[1] = L2; d[2] = A; break; case 5: d[0] = L; d[1] = A; d[2] = L2; break; case 6: d[0] = A; d[1] = L; d[2] = L2; break; case 7: d[0] = A; break; default: break; }
            Var m = M, tl = lit<bool>(true), fl = lit<bool>(false); if (op == JitOp::Select) { if (mode >= 8) m = mode % 2 ? tl : fl; uint32_t x = d[0], y = d[1]; if (mode >= 8) x = A, y = B; if (mode == 2) y = x; d[0] = m; d[1] = x; d[2] = y; }
            ps.push_back({ Var(jit_var_op(op, d)), op, mode, l, l2 }); };
        for (uint32_t k = 0; k < (uint32_t) JitOp::Sin; ++k) { JitOp op = (JitOp) k; if (!applies<T>(op)) continue; int n = nops(op); if (n == 1) { add(op, 7, s[0], s[0]); continue; } if (op == JitOp::Select) { add(op, 8, s[0], s[0]); add(op, 9, s[0], s[0]); add(op, 2, s[0], s[0]); for (T l : s) { add(op, 0, l, l); add(op, 1, l, l); } continue; }
            add(op, 2, s[0], s[0]); for (T l : s) { if (!((op == JitOp::Div || op == JitOp::Mod) && !isf<T> && zero_(l)) && !((op == JitOp::Shl || op == JitOp::Shr) && bits(l) >= 8 * sizeof(T))) add(op, 0, l, l);
                if (!((op == JitOp::Div || op == JitOp::Mod) && !isf<T>)) add(op, 1, l, l); if (op == JitOp::Fma) { add(op, 3, l, l); add(op, 4, l, s[rng() % s.size()]); add(op, 5, l, s[rng() % s.size()]); add(op, 6, l, s[rng() % s.size()]); } } }
        for (auto &p : ps) if ((p.op == JitOp::Div || p.op == JitOp::Mod) && !isf<T> && (p.mode == 1 || p.mode == 2)) p.r = Var(); // division by arbitrary lanes may trap
        for (uint32_t k = 0; k < (uint32_t) JitOp::Sin; ++k) { bool any = false; for (auto &p : ps) if (p.r && (uint32_t) p.op == k) { jit_var_schedule(p.r); any = true; } if (any) { if (getenv("DBG")) fprintf(stderr, "%s %s\n", tn, ON[k]); jit_eval(); } }
        for (auto &p : ps) { if (!p.r) continue; std::vector<uint64_t> g; size_t n = jit_var_size(p.r); VarType rt = jit_var_type(p.r); if (rt == VarType::Bool) { for (bool x : get<bool>(p.r)) g.push_back(x); } else if (p.op == JitOp::MulWide) { for (uint64_t x : get<uint64_t>(p.r)) g.push_back(x); } else for (T x : get<T>(p.r)) g.push_back(bits(x));
            if (n != s.size()) { report("%s of %s variables has size %zu", ON[(int) p.op], tn, n); continue; }
            for (size_t i = 0; i < n; ++i) { T a = s[i], b = s[i], c = s2[i]; bool m = mb[i]; switch (p.mode) { case 0: b = p.l; break; case 1: a = p.l; break; case 3: b = s2[i]; c = p.l; break; case 4: a = p.l; b = p.l2; c = s[i]; break; case 5: a = p.l; c = p.l2; break; case 6: b = p.l; c = p.l2; break; case 8: case 9: m = p.mode % 2; b = s2[i]; break; default: break; }
                bool ok; int tol; uint64_t want = ref<T>(p.op, a, b, c, m, ok, tol, p.op == JitOp::Div && p.mode != 0 && isf<T>); if (!ok) continue; ncase++; bool good = rt == VarType::Bool || p.op == JitOp::MulWide ? g[i] == want : same<T>(frombits<T>(g[i]), frombits<T>(want), tol);
                if (!good) { report("%s(%s, %s%s%s) on %s, case %d: 0x%llx, expected 0x%llx", ON[(int) p.op], str(a).c_str(), str(b).c_str(), nops(p.op) > 2 ? ", " : "", nops(p.op) > 2 ? str(c).c_str() : "", tn, p.mode, (unsigned long long) g[i], (unsigned long long) want); break; } } }
        // conversions of arrays (also of rounded values) and of converted values
        if (!fast) types([&](auto u0) { using U = decltype(u0); std::vector<T> v; std::vector<U> w; for (T x : s) { U y; if (conv<T, U>(x, y)) v.push_back(x), w.push_back(y); } if (v.empty()) return; auto g = get<U>(Var(jit_var_cast(arr<T>(v), VT<U>::v, 0))); ncase += v.size(); for (size_t i = 0; i < v.size(); ++i) if (!same<U>(g[i], w[i], 0)) { report("conversion of %s from %s to %s: 0x%llx", str(v[i]).c_str(), tn, type_name[(int) VT<U>::v], (unsigned long long) bits(g[i])); break; }
            if constexpr (isf<T> && !isf<U> && !std::is_same_v<U, bool>) { JitOp ro[] = { JitOp::Ceil, JitOp::Floor, JitOp::Round, JitOp::Trunc }; for (JitOp o : ro) { std::vector<T> v2; std::vector<U> w2; for (T x : s) { bool ok; int tol; T y = frombits<T>(ref<T>(o, x, x, x, true, ok, tol, true)); U z; if (conv<T, U>(y, z)) v2.push_back(x), w2.push_back(z); } if (v2.empty()) continue; Var a = arr<T>(v2); uint32_t d[3] = { a, a, a }; Var q(jit_var_op(o, d)); auto h = get<U>(Var(jit_var_cast(q, VT<U>::v, 0))); ncase += v2.size(); for (size_t i = 0; i < v2.size(); ++i) if (h[i] != w2[i]) { report("%s of the %s value %s converted to %s: %s, expected %s", ON[(int) o], tn, str(v2[i]).c_str(), type_name[(int) VT<U>::v], str(h[i]).c_str(), str(w2[i]).c_str()); break; } } } });
    }); }
    jit_set_flag(JitFlag::FastMath, 0);
    // operands of different size: the result is broadcast, the operands are unchanged, incompatible sizes are refused, empty operands are empty
    for (uint32_t k = 0; k < (uint32_t) JitOp::Sin; ++k) { JitOp op = (JitOp) k; int n = nops(op); if (n == 1) continue;
        types([&](auto t0) { using T = decltype(t0); if (!applies<T>(op)) return; const char *tn = type_name[(int) VT<T>::v];
            for (int64_t l : { 0, 1, -1, 4 }) for (int pos = 0; pos < n; ++pos) for (int lazy = 0; lazy < 2; ++lazy) { T lv = (T) (up<T>) l; if ((op == JitOp::Div || op == JitOp::Mod) && !isf<T> && (zero_(lv))) continue; if ((op == JitOp::Shl || op == JitOp::Shr) && l < 0) continue;
                std::vector<Var> h; uint32_t d[3]; Var x = arr<T>(std::vector<T>(1, (T) (up<T>) 1)); if (lazy) x = Var(jit_var_gather(arr<T>(std::vector<T>(3, (T) (up<T>) 1)), arr<uint32_t>({ 1 }), lit<bool>(true)));
                for (int i = 0; i < n; ++i) { bool b = op == JitOp::Select && i == 0; Var v = i == pos ? (b ? lit<bool>(l & 1, 10) : lit<T>(lv, 10)) : (b ? Var(jit_var_neq(x, lit<T>((T) (up<T>) 0))) : x); h.push_back(v); d[i] = v; }
                if (op == JitOp::Fma && pos != 2) { h[2] = lit<T>((T) (up<T>) 0); d[2] = h[2]; }
                std::vector<size_t> z; for (auto &v : h) z.push_back(jit_var_size(v)); Var x0 = Var(); // the handles are the only references
                x = Var(); ncase++; Var r(jit_var_op(op, d)); if (jit_var_size(r) != 10) report("%s of %s variables of size 10 and 1 has size %zu", ON[k], tn, jit_var_size(r)); for (int i = 0; i < n; ++i) if (jit_var_size(h[i]) != z[i]) report("%s: operand %d of type %s changed its size from %zu to %zu", ON[k], i, tn, z[i], jit_var_size(h[i])); }
            { uint32_t d[3]; std::vector<Var> h; for (int i = 0; i < n; ++i) { bool b = op == JitOp::Select && i == 0; std::vector<T> v(3 + i, (T) (up<T>) 1); std::vector<bool> m(3 + i, true); h.push_back(b ? arr<bool>(m) : arr<T>(v)); d[i] = h[i]; } bool thr = false; ncase++; try { Var r(jit_var_op(op, d)); } catch (...) { thr = true; } if (!thr) report("%s of %s variables of incompatible sizes does not raise an error", ON[k], tn); }
            { uint32_t d[3] = { 0, 0, 0 }; ncase++; Var r(jit_var_op(op, d)); if (r) report("%s of empty operands", ON[k]); } }); }
    return full_done("simplified operations"); }
