extern "C" void w_mkvar(Variable *v, uint32_t kind, uint32_t type, uint32_t backend, uint32_t size, uint64_t literal, uint32_t symbolic, uint32_t d0, uint32_t d1, uint32_t d2, uint32_t d3) {
    v->kind = kind; v->type = type; v->backend = backend; v->size = size; v->literal = literal; v->symbolic = symbolic; v->dep[0] = d0; v->dep[1] = d1; v->dep[2] = d2; v->dep[3] = d3; v->ref_count = 1;
}
