/* C43: histories of buffer operations on the real allocator, with the log that the library writes about them */
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include "embc.h"
#include "embc/log.h"
#include "embc/lib.h"
#include "embc/memory/buffer.h"

static char * out_; static int left_;
static void put(const char * format, ...) {
    va_list a;
    va_start(a, format);
    int n = vsnprintf(out_, left_, format, a);
    va_end(a);
    if (n > 0 && n < left_) { out_ += n; left_ -= n; }
}
/* one character per operation: s l = alloc, S L = alloc_unsafe (small, large); 0..9 = free the k-th buffer; n = something else is logged.
 * Writes the log to out, and to live the state of each allocation: 1 = not freed, 0 = freed, 2 = refused. */
int mc_log_ops(const char * script, char * out, int size, char * live) {
    static const embc_size_t sizes[] = {2, 2};
    struct embc_buffer_s * b[64]; int n = 0;
    out_ = out; left_ = size; *out = 0;
    embc_log_initialize(put);
    struct embc_buffer_allocator_s * a = embc_buffer_allocator_new(sizes, 2);
    for (; *script; ++script) {
        switch (*script) {
            case 's': b[n] = embc_buffer_alloc(a, 10); live[n] = 1; ++n; break;
            case 'l': b[n] = embc_buffer_alloc(a, 50); live[n] = 1; ++n; break;
            case 'S': b[n] = embc_buffer_alloc_unsafe(a, 10); live[n] = b[n] ? 1 : 2; ++n; break;
            case 'L': b[n] = embc_buffer_alloc_unsafe(a, 50); live[n] = b[n] ? 1 : 2; ++n; break;
            case 'n': EMBC_LOGE("something else happened to the buffer %p", (void *) b); break;
            default: { int k = *script - '0'; embc_buffer_free(b[k]); live[k] = 0; } break;
        }
    }
    embc_log_initialize(0);
    embc_free(a);
    return n;
}
