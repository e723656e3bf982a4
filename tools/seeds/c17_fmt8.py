property="C17"
edits=[("include/drjit-core/nanostl.h","(std::is_signed_v<T> ? 1 : 0) + int(sizeof(T) * 5 + 1) / 2;","(std::is_signed_v<T> ? 1 : 0) + int(sizeof(T) * 5) / 2;")]
needs="appending an 8 bit integer with three digits to a string whose spare capacity is exactly the computed bound"
breaks="the formatter reserves two digits for 8 bit integers: the third one is written in front of the local buffer and past the reserved capacity"
flags="-DNDEBUG"
demo=r'''
#include <cstring>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <drjit-core/nanostl.h>
int main() {
    drjit::string s;
    s.put((uint8_t) 7);
    if (strcmp(s.c_str(), "7")) return 1;
    drjit::string t;
    t.put((uint8_t) 213);
    if (t.size() != 3 || strcmp(t.c_str(), "213") || t.capacity() < 3) return 1;
    drjit::string u;
    u.put((int8_t) -128);
    if (u.size() != 4 || strcmp(u.c_str(), "-128") || u.capacity() < 4) return 1;
    return 0;
}
'''
