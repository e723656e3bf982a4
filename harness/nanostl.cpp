// verbatim use of include/drjit-core/nanostl.h
#include <cstring>
#include <cstdio>
#include <utility>
#include <type_traits>
#include <new>
#define private public
#define protected public
#include <drjit-core/nanostl.h>
#undef private
#undef protected
// element type that tracks its own lifetime: upper half = tag (1: live)
extern "C" void ghost_check(bool);
extern "C" { uint64_t g_ctor, g_dtor; }
struct Tr {
    uint64_t w;
    static constexpr uint64_t L = 1ull << 32;
    Tr() : w(L) { g_ctor++; }
    explicit Tr(uint32_t v) : w(L | v) { g_ctor++; }
    Tr(const Tr &o) { ghost_check((o.w >> 32) == 1); w = o.w; g_ctor++; }
    Tr(Tr &&o) { ghost_check((o.w >> 32) == 1); w = o.w; o.w = L | 0xdead; g_ctor++; }
    Tr &operator=(const Tr &o) { ghost_check((o.w >> 32) == 1); ghost_check((w >> 32) == 1); w = o.w; return *this; }
    ~Tr() { ghost_check((w >> 32) == 1); w = 0; g_dtor++; }
    bool operator!=(const Tr &o) const { ghost_check((o.w >> 32) == 1); ghost_check((w >> 32) == 1); return w != o.w; }
};
using V = drjit::vector<Tr>;
extern "C" {
void v_set(V *v, Tr *d, size_t n, size_t c) { v->m_data = d; v->m_size = n; v->m_capacity = c; }
uint64_t v_ctor() { return g_ctor; } uint64_t v_dtor() { return g_dtor; }
void v_default(V *v) { new (v) V(); }
void v_copy(V *d, const V *s) { new (d) V(*s); }
void v_move(V *d, V *s) { new (d) V(std::move(*s)); }
void v_destroy(V *v) { v->~V(); }
void v_clear(V *v) { v->clear(); }
void v_sized(V *v, size_t n) { new (v) V(n); }
void v_fill(V *v, size_t n, const Tr *x) { new (v) V(n, *x); }
void v_range(V *v, const Tr *b, const Tr *e) { new (v) V(b, e); }
void v_assign(V *d, const V *s) { *d = *s; }
void v_massign(V *d, V *s) { *d = std::move(*s); }
void v_push(V *v, const Tr *x) { v->push_back(*x); }
void v_pushm(V *v, Tr *x) { v->push_back(std::move(*x)); }
void v_pushself(V *v, size_t i) { v->push_back((*v)[i]); }
Tr *v_emplace(V *v, uint32_t x) { return &v->emplace_back(x); }
void v_emplaceself(V *v, size_t i) { v->emplace_back((const Tr &) (*v)[i]); }
bool v_eq(const V *a, const V *b) { return *a == *b; }
bool v_ne(const V *a, const V *b) { return *a != *b; }
void v_pop(V *v) { v->pop_back(); }
Tr *v_back(V *v) { return &v->back(); }
void v_resize(V *v, size_t n) { v->resize(n); }
void v_resize2(V *v, size_t n, uint32_t x) { v->resize(n, Tr(x)); }
void v_swap(V *a, V *b) { a->swap(*b); }
void v_reserve(V *v, size_t n) { v->reserve(n); }
size_t v_size(V *v) { return v->size(); }
size_t v_cap(V *v) { return v->capacity(); }
bool v_empty(V *v) { return v->empty(); }
Tr *v_data(V *v) { return v->data(); }
Tr *v_at(V *v, size_t i) { return &(*v)[i]; }
Tr *v_begin(V *v) { return v->begin(); }
Tr *v_end(V *v) { return v->end(); }

using S = drjit::string;
void s_set(S *s, char *d, size_t n, size_t c) { s->m_data.m_data = d; s->m_size = n; s->m_capacity = c; }
char *s_data(S *s) { return s->data(); }
size_t s_size(const S *s) { return s->size(); }
size_t s_length(const S *s) { return s->length(); }
size_t s_cap(const S *s) { return s->capacity(); }
const char *s_cstr(const S *s) { return s->c_str(); }
const char *s_begin(const S *s) { return s->begin(); }
const char *s_end(const S *s) { return s->end(); }
const char *s_at(const S *s, size_t i) { return &(*s)[i]; }
void s_default(S *s) { new (s) S(); }
void s_copy(S *s, const S *o) { new (s) S(*o); }
void s_move(S *s, S *o) { new (s) S(std::move(*o)); }
void s_range(S *s, const char *p, size_t n) { new (s) S(p, n); }
void s_fromc(S *s, const char *p) { new (s) S(p); }
void s_fromu(S *s, uint32_t v) { new (s) S(v); }
void s_destroy(S *s) { s->~S(); }
void s_assign(S *s, const S *o) { *s = *o; }
void s_massign(S *s, S *o) { *s = std::move(*o); }
void s_assignc(S *s, const char *o) { *s = o; }
bool s_eq(const S *s, const S *o) { return *s == *o; }
bool s_ne(const S *s, const S *o) { return *s != *o; }
void s_swap(S *s, S *o) { s->swap(*o); }
void s_reserve(S *s, size_t n) { s->reserve(n); }
void s_resize(S *s, size_t n, char c) { s->resize(n, c); }
void s_clear(S *s) { s->clear(); }
void s_puts(S *s, const S *o) { s->put(*o); }
void s_putc(S *s, char c) { s->put(c); }
void s_putcs(S *s, const char *c) { s->put(c); }
void s_putlit(S *s) { s->put("abc"); }
void s_put2(S *s, const S *o, const char *c) { s->put(*o, '-', c); }
void s_pluseq(S *s, const S *o) { *s += *o; }
void s_add1(S *r, const S *s, const char *o) { new (r) S(*s + o); }
void s_add2(S *r, const char *s, const S *o) { new (r) S(s + *o); }
void s_add3(S *r, S *s, const char *o) { new (r) S(std::move(*s) + o); }
void s_indent(S *s, size_t n) { s->indent(n); }
void s_putu8(S *s, uint8_t v) { s->put(v); }
void s_puti8(S *s, int8_t v) { s->put(v); }
void s_putu16(S *s, uint16_t v) { s->put(v); }
void s_puti16(S *s, int16_t v) { s->put(v); }
void s_putu32(S *s, uint32_t v) { s->put(v); }
void s_puti32(S *s, int32_t v) { s->put(v); }
void s_putu64(S *s, uint64_t v) { s->put(v); }
void s_puti64(S *s, int64_t v) { s->put(v); }
void s_putbool(S *s, bool v) { s->put(v); }
void s_putptr(S *s, const void *v) { s->put(v); }
using U = drjit::unique_ptr<Tr>;
void u_set(U *u, Tr *p) { new (u) U(p); }
Tr *u_get(U *u) { return u->get(); }
bool u_bool(U *u) { return (bool) *u; } bool u_not(U *u) { return !*u; }
void u_move(U *d, U *s) { new (d) U(std::move(*s)); }
void u_massign(U *d, U *s) { *d = std::move(*s); }
void u_reset(U *u, Tr *p) { u->reset(p); }
Tr *u_release(U *u) { return u->release(); }
void u_destroy(U *u) { u->~U(); }
void u_make(U *u, uint32_t x) { new (u) U(drjit::make_unique<Tr>(x)); }
Tr *new_tr(uint32_t x) { return new Tr(x); }
using A = drjit::unique_ptr<Tr[]>;
void a_make(A *u) { new (u) A(new Tr[3]); }
void a_reset(A *u) { u->reset(); }
void a_destroy(A *u) { u->~A(); }
Tr *a_at(A *u, size_t i) { return &(*u)[i]; }
using T3 = drjit::tuple<uint32_t, Tr, uint8_t>;
void t_make(T3 *t, uint32_t a, const Tr *b, uint8_t c) { new (t) T3(a, *b, c); }
uint32_t t_0(T3 *t) { return drjit::get<0>(*t); } const Tr *t_1(const T3 *t) { return &drjit::get<1>(*t); } uint8_t t_2(const T3 *t) { return drjit::get<2>(*t); }
void t_tie(T3 *t, uint32_t *a, Tr *b, uint8_t *c) { drjit::tie(*a, *b, *c) = *t; }
void t_copy(T3 *d, const T3 *s) { *d = *s; }
void t_mk(uint32_t a, uint8_t c, uint32_t *x, uint8_t *y) { auto t = drjit::make_tuple(a, c); auto [p, q] = t; *x = p; *y = q; }
void t_conv(uint64_t *x, int32_t *y, uint32_t a, int8_t c) { drjit::tuple<uint32_t, int8_t> s(a, c); drjit::tuple<uint64_t, int32_t> d(s); d = s; *x = drjit::get<0>(d); *y = drjit::get<1>(d); }
}
