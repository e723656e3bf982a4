// slot allocator (src/free_slots.h) and instance registry (src/registry.cpp): verbatim include
#include "/repo/src/registry.cpp"
#include "/repo/src/free_slots.h"
#include <cstddef>
extern "C" {
void w_push(FreeSlots *s, uint32_t i) { s->push(i); }
uint32_t w_pop(FreeSlots *s) { return s->pop(); }
bool w_empty(FreeSlots *s) { return s->empty(); }
size_t w_size(FreeSlots *s) { return s->size(); }
void w_new(FreeSlots *s) { new (s) FreeSlots(); }
uint32_t w_cursor(FreeSlots *s) { return s->cursor; }
size_t w_count(FreeSlots *s) { return s->count; }
void w_set(FreeSlots *s, uint32_t cursor, size_t count) { s->cursor = cursor; s->count = count; }
uint64_t w_sizes(uint32_t i) { switch (i) { case 0: return sizeof(FreeSlots); case 1: return sizeof(Domain); case 2: return sizeof(Ptr); case 3: return sizeof(Registry); case 4: return offsetof(Domain, fwd_map); case 5: return offsetof(Domain, free_slots);
                                           case 6: return offsetof(Registry, domain_ids); case 7: return offsetof(Registry, rev_map); case 8: return offsetof(FreeSlots, words); case 9: return sizeof(std::pair<void *, ReverseKey>); default: return sizeof(std::pair<DomainKey, uint32_t>); } }
void w_ptr_set(Ptr *p, void *q, bool a) { p->ptr = q; p->active = a; }
void *w_ptr_ptr(Ptr *p) { return p->ptr; }
uint32_t w_ptr_active(Ptr *p) { return p->active; }
uint32_t w_bound(Domain *d) { return d->id_bound; }
void w_bound_set(Domain *d, uint32_t b) { d->id_bound = b; }
void w_rev_set(std::pair<void *, ReverseKey> *e, uint32_t d, uint32_t i) { e->second.domain_id = d; e->second.index = i; }
uint32_t w_rev_domain(std::pair<void *, ReverseKey> *e) { return e->second.domain_id; }
uint32_t w_rev_index(std::pair<void *, ReverseKey> *e) { return e->second.index; }
void w_dom_set(std::pair<DomainKey, uint32_t> *e, uint32_t d) { e->second = d; }
uint32_t w_dom_get(std::pair<DomainKey, uint32_t> *e) { return e->second; }
const char *w_dom_variant(std::pair<DomainKey, uint32_t> *e) { return e->first.variant; }
bool w_key_eq(DomainKey *a, DomainKey *b) { return DomainKey::Eq()(*a, *b); }
const char *w_name(Domain *d) { return d->name; }
}
