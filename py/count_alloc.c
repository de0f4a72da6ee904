/* linked into the shared library: poisons and counts heap blocks */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static long live;
long mc_live(void) { return live; }
void * __real_malloc(size_t n); void __real_free(void * p);
void * __wrap_malloc(size_t n) {
    size_t * p = __real_malloc(n + 48);
    if (!p) { return 0; }
    p[0] = n; p[1] = 0x5afe5afe5afe5afe; memset(p + 2, 0xA5, n); memset((char *) (p + 2) + n, 0xE7, 16);
    ++live; return p + 2;
}
void __wrap_free(void * q) {
    if (!q) { return; }
    size_t * p = (size_t *) q - 2;
    if (p[1] != 0x5afe5afe5afe5afe) { abort(); }
    for (int i = 0; i < 16; ++i) { if (((unsigned char *) q)[p[0] + i] != 0xE7) { abort(); } }
    memset(q, 0xDD, p[0]); p[1] = 0; --live; __real_free(p);
}
void * __wrap_calloc(size_t a, size_t b) { void * p = __wrap_malloc(a * b); if (p) { memset(p, 0, a * b); } return p; }
