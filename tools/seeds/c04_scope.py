property="C04"
full=True
edits=[("src/internal.h","""        memcpy((void *) this, (const void *) &v.scope, 32);
""","""        memcpy((void *) this, (const void *) &v.scope, 32);

        // Literals do not depend on anything, they can be shared across scopes
        if (v.kind == (uint32_t) VarKind::Literal)
            scope = 0;
""")]
needs="literals of the same type and value that are created in two different scopes"
breaks="literals are shared between scopes: code of one scope refers to variables that were created in another"
demo=r'''
#include "full.h"
int main() { full_init(); Var a = lit<uint32_t>(5); jit_new_scope(LL); Var b = lit<uint32_t>(5), c = lit<uint32_t>(5); printf("r%u r%u r%u\n", a.i, b.i, c.i); return a.i != b.i && b.i == c.i ? 0 : 1; }
'''
