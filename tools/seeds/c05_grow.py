property='C05'
edits=[('src/free_slots.h', '        if (w >= words.size())\n            words.resize(w + 1, 0);\n        words[w] |= (uint64_t) 1 << (i % 64);\n        cursor = std::min(cursor, w);', '        if (w >= words.size()) {\n            words.resize(w + 1, 0);\n            cursor = w;\n        }\n        words[w] |= (uint64_t) 1 << (i % 64);\n        cursor = std::min(cursor, w);')]
needs='a slot beyond all previous ones is released while a lower slot is still free'
breaks='the search starts at the new word: the lower free slot is not reused first'
demo=r'''
#include "src/free_slots.h"
#include <cstdio>
int main() { FreeSlots f; f.push(3); f.push(900); uint32_t s = f.pop(); printf("%u\n", s); return s == 3 ? 0 : 1; }
'''
