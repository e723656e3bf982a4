// the variable table (src/var.cpp): verbatim include
#include "/repo/src/var.cpp"
#include "varhelp.h"
extern "C" {
uint32_t w_kind_Evaluated() { return (uint32_t) VarKind::Evaluated; }
uint32_t w_kind_Undefined() { return (uint32_t) VarKind::Undefined; }
uint32_t w_kind_Literal() { return (uint32_t) VarKind::Literal; }
uint32_t w_kind_Bitcast() { return (uint32_t) VarKind::Bitcast; }

uint64_t w_offsets(uint32_t i) {
    switch (i) { case 0: return offsetof(Variable, ref_count); case 1: return offsetof(Variable, scope); case 2: return offsetof(Variable, dep); case 3: return offsetof(Variable, literal); case 4: return offsetof(Variable, size);
                 case 5: return offsetof(Variable, counter); case 6: return offsetof(Variable, scratch); case 7: return offsetof(Variable, ref_count_se); case 8: return sizeof(Variable); case 9: return offsetof(Variable, extra);
                 case 10: return offsetof(Variable, array_length); default: return 0; }
}
#define F(n) uint32_t w_field_##n(Variable *v) { return (uint32_t) v->n; } void w_set_##n(Variable *v, uint32_t x) { v->n = x; }
F(ref_count) F(scope) F(size) F(counter) F(scratch) F(kind) F(backend) F(type) F(write_ptr) F(written) F(retain_data) F(symbolic) F(unaligned) F(optix) F(side_effect) F(coop_vec) F(param_type)  F(consumed)  F(array_state)
F(param_offset) F(reg_index) F(ref_count_se) F(array_length)  F(extra)
uint64_t w_field_literal(Variable *v) { return v->literal; }
uint32_t w_field_dep(Variable *v, uint32_t i) { return v->dep[i]; }
void w_key(VariableKey *k, Variable *v) { new (k) VariableKey(*v); }
bool w_key_eq(VariableKey *a, VariableKey *b) { return *a == *b; }
uint64_t w_key_hash(VariableKey *a) { return VariableKeyHasher()(*a); }
extern void w_callback(uint32_t, int, void *);
void w_mkextra(VariableExtra *e, char *label, void (*cb)(uint32_t, int, void *), uint32_t internal) { e->label = label; e->callback = cb; e->callback_data = nullptr; e->callback_internal = internal; }
void w_settls(ThreadLocal *t, ThreadState *l, ThreadState *c, uint32_t flags, uint32_t def) { t->ts_llvm = l; t->ts_cuda = c; t->flags = flags; t->def_backend = (JitBackend) def; }
void w_setts(ThreadState *t, uint32_t scope, char *prefix) { t->scope = scope; t->prefix = prefix; }
uint64_t w_sizes(uint32_t i) { switch (i) { case 0: return sizeof(ThreadLocal); case 1: return sizeof(ThreadState); case 2: return (uint64_t) JitFlag::ValueNumbering; case 3: return (uint64_t) JitFlag::ReuseIndices; case 4: return (uint64_t) JitFlag::Debug; case 5: return SCOPE_BUFFER; case 6: return sizeof(VariableExtra); case 7: return sizeof(std::pair<VariableKey, uint32_t>); default: return offsetof(ThreadState, scope); } }
void w_newvar(Variable *v) { new (v) Variable(); }
char *w_label(VariableExtra *e) { return e->label; }
void w_entry_set(std::pair<VariableKey, uint32_t> *e, uint32_t v) { e->second = v; }
uint32_t w_entry_get(std::pair<VariableKey, uint32_t> *e) { return e->second; }
bool w_is_array(Variable *v) { return v->is_array(); }
bool w_is_evaluated(Variable *v) { return v->is_evaluated(); }
uint32_t w_type_void() { return (uint32_t) VarType::Void; }
uint32_t w_ts_scope(ThreadState *t) { return t->scope; }
uint32_t w_ctr() { return state.scope_ctr; }
void w_ctr_set(uint32_t x) { state.scope_ctr = x; }
void *w_tss(uint32_t i) { return i ? (void *) &state.record_tss : (void *) &state.tss; }
uint64_t w_vk_size() { return sizeof(std::pair<VariableKey, uint32_t>); }
void w_compact() { jitc_compact_scopes(); }
uint32_t w_dynamic() { return SCOPE_DYNAMIC; }
}
