property="C17"
edits=[("include/drjit-core/nanostl.h","grow<false>(capacity - m_size);","grow<false>(capacity - m_capacity);")]
needs="a string with spare capacity (cleared or grown by appends), then reserve()/resize() beyond its capacity"
breaks="reserve() asks for too little when size() < capacity(): the capacity stays below the request and resize() writes past the buffer"
demo=r'''
#include <cstring>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <drjit-core/nanostl.h>
int main() {
    drjit::string s("0123456789");
    s.reserve(20);
    if (s.capacity() < 20) return 1;
    s.clear();
    s.put("ab");
    s.reserve(40);
    if (s.capacity() < 40) { printf("capacity %zu\n", s.capacity()); return 1; }
    return 0;
}
'''
