/* C10: buffer allocator.  C11: buffer operations. */
#include "mc.h"
#include "embc/memory/buffer.h"
#include "embc/platform.h"
#include <string.h>
#include <stdlib.h>

/* ------------------------------------------------------------ C10 */
struct cfg_s { int n; embc_size_t sizes[8]; };
static const struct cfg_s cfgs[] = {
    {1, {2}}, {1, {1}}, {2, {1, 1}}, {3, {2, 0, 1}}, {3, {0, 1, 2}}, {2, {3, 2}}, {4, {1, 1, 1, 1}}, {3, {0, 0, 1}}, {8, {1, 1, 1, 1, 1, 1, 1, 2}},
};
#define MAXB 16
static struct { struct embc_buffer_s * b; int cls; uint8_t tag; } live[MAXB];
static int nlive;
static const struct cfg_s * cfg;
static int avail[8];
static uint8_t * base; static int base_sz;
static struct embc_buffer_allocator_s * al;

static int class_of(int64_t size) {
    for (int i = 0; i < cfg->n; ++i) { if (size <= (32 << i)) { return i; } }
    return -1;
}
static void live_check(void) {
    for (int i = 0; i < nlive; ++i) {
        struct embc_buffer_s * b = live[i].b;
        mc_check(b->capacity == (32 << live[i].cls) && b->cursor == 1 && b->length == b->capacity && b->reserve == 3 && b->buffer_id == 0xfe77 && b->flags == 0x8163,
            "header of a live buffer changed");
        mc_check(b->item.next == &b->item && b->item.prev == &b->item, "list item of a live buffer is linked into something");
        for (int k = 0; k < b->capacity; ++k) { mc_check(b->data[k] == live[i].tag, "contents of a live buffer changed"); }
    }
}
static void got(struct embc_buffer_s * b, int cls, int size) {
    uint8_t * p = (uint8_t *) b;
    mc_check(b->capacity >= size, "capacity %d for a request of %d", b->capacity, size);
    mc_check(b->cursor == 0 && b->length == 0 && b->reserve == 0 && b->buffer_id == 0 && b->flags == 0, "a new buffer is not empty");
    mc_check(embc_buffer_write_remaining(b) == b->capacity && embc_buffer_read_remaining(b) == 0, "remaining counts of a new buffer");
    mc_check(p >= base && p + sizeof(*b) <= base + base_sz && b->data >= base && b->data + b->capacity <= base + base_sz, "buffer lies outside the allocator instance");
    mc_check(((uintptr_t) p) % sizeof(void *) == 0, "misaligned buffer");
    mc_check(b->data >= p + sizeof(*b) || b->data + b->capacity <= p, "data overlaps the header");
    for (int i = 0; i < nlive; ++i) {
        struct embc_buffer_s * o = live[i].b;
        mc_check(o != b, "buffer handed out twice");
        const uint8_t * s1[2] = {p, b->data}; int l1[2] = {sizeof(*b), b->capacity};
        const uint8_t * s2[2] = {(uint8_t *) o, o->data}; int l2[2] = {sizeof(*o), o->capacity};
        for (int x = 0; x < 2; ++x) { for (int y = 0; y < 2; ++y) {
            mc_check(s1[x] + l1[x] <= s2[y] || s2[y] + l2[y] <= s1[x], "buffers overlap");
        } }
    }
    mc_check(b->capacity == (32 << cls), "buffer of capacity %d for a request of %d", b->capacity, size);
    live[nlive].b = b; live[nlive].cls = cls; live[nlive].tag = 0x10 + nlive * 7 + size;
    embc_list_initialize(&b->item);
    b->cursor = 1; b->length = b->capacity; b->reserve = 3; b->buffer_id = 0xfe77; b->flags = 0x8163;
    memset(b->data, live[nlive].tag, b->capacity);
    ++nlive; --avail[cls];
}
static void do_alloc(int unsafe, embc_size_t wanted) {
    int size = (int) wanted;
    int cls = class_of(wanted);
    int ok = cls >= 0 && avail[cls] > 0;
    struct embc_buffer_s * b = 0;
    if (unsafe) {
        mc_op("alloc_unsafe(%lld)", (long long) wanted);
        mc_check(!MC_FATAL(b = embc_buffer_alloc_unsafe(al, wanted)), "alloc_unsafe(%d) raised a fatal error: %s", size, mc_fatal_msg);
        mc_check((b != 0) == ok, "alloc_unsafe(%d) returned %s although %d buffers are available", size, b ? "a buffer" : "null", cls < 0 ? 0 : avail[cls]);
    } else {
        mc_op("alloc(%lld)", (long long) wanted);
        int f = MC_FATAL(b = embc_buffer_alloc(al, wanted));
        mc_check(f == !ok, "alloc(%d) %s although %d buffers are available", size, f ? "was fatal" : "was not fatal", cls < 0 ? 0 : avail[cls]);
    }
    if (ok) { got(b, cls, size); }
}
static void do_free(int i) {
    mc_op("free %d", i);
    struct embc_buffer_s * b = live[i].b;
    ++avail[live[i].cls];
    for (int k = i; k + 1 < nlive; ++k) { live[k] = live[k + 1]; }
    --nlive;
    memset(b->data, 0xee, b->capacity);
    embc_buffer_free(b);
}
static void alloc_setup(void) {
    embc_allocator_set((embc_alloc_fn) mc_malloc, mc_free);
    cfg = &cfgs[mc_arg];
    nlive = 0;
    for (int i = 0; i < cfg->n; ++i) { avail[i] = cfg->sizes[i]; }
    embc_size_t sz = embc_buffer_allocator_instance_size(cfg->sizes, cfg->n);
    if (mc_choose(2)) {
        al = embc_buffer_allocator_new(cfg->sizes, cfg->n);
        base = (uint8_t *) al; base_sz = sz;
    } else {
        base = malloc(sz); base_sz = sz;
        al = (struct embc_buffer_allocator_s *) base;
        embc_buffer_allocator_initialize(al, cfg->sizes, cfg->n);
    }
}
static void alloc_finish(void) {
    live_check();
    while (nlive) { do_free(nlive / 2); live_check(); }
    for (int i = cfg->n - 1; i >= 0; --i) {
        while (avail[i]) { do_alloc(nlive & 1, (32 << i) - (i ? 5 : 0)); }
        do_alloc(0, 32 << i);
        do_alloc(1, 32 << i);
    }
    live_check();
    embc_buffer_allocator_finalize(al);
    embc_free(al);
    mc_check(mc_outstanding() == 0, "memory leak");
}
static void alloc_run(void) {
    alloc_setup();
    int top = 32 << (cfg->n - 1);
    int sizes[12], ns = 0;
    sizes[ns++] = 1;
    for (int i = 0; i < cfg->n && i < 3; ++i) { sizes[ns++] = 32 << i; sizes[ns++] = (32 << i) + 1; }
    if (cfg->n > 3) { sizes[ns++] = top; sizes[ns++] = top + 1; }
    sizes[ns++] = base_sz;
    int depth = cfg->n <= 2 ? mc_tier(5, 6) : mc_tier(4, 5);
    if (cfg->n == 1) { ++depth; }
    for (int d = 0; d < depth; ++d) {
        int c = mc_choose(2 * ns + nlive);
        if (c < 2 * ns) { do_alloc(c & 1, sizes[c / 2]); }
        else { do_free(c - 2 * ns); }
        live_check();
        uint64_t h = mc_arg;
        for (int i = 0; i < nlive; ++i) { h = mc_mix(h, (uint8_t *) live[i].b - base); }
        mc_state(h);
    }
    alloc_finish();
}
static void alloc_sizes_run(void) {
    alloc_setup();
    int top = 32 << (cfg->n - 1);
    static const embc_size_t far[] = {0x7fffffff, 0x80000000LL, 0x100000000LL, 0x100000001LL, 0x100000020LL, 0x7fffffffffffffffLL, 0x7fffffff00000001LL};
    embc_size_t size = 1 + mc_choose(top + 8);
    if (size > top + 1) { size = far[size - top - 2]; }
    do_alloc(mc_choose(2), size);
    live_check();
    alloc_finish();
}
/* larger allocators: many classes, many buffers; two allocators at once */
struct big_s { struct embc_buffer_s * b; int a; uint8_t tag; };
static struct big_s * bl; static int nbl;
static struct embc_buffer_allocator_s * bal[2]; static int bsz[2];
static int wrapped_freed;
static struct embc_buffer_manager_s wrapper; static struct embc_buffer_manager_s const * wrapped;
static void wrapper_free(struct embc_buffer_manager_s const * self, struct embc_buffer_s * b) {
    mc_check(self == &wrapper, "free called with another manager");
    ++wrapped_freed;
    b->manager = wrapped;
    b->manager->free(b->manager, b);
}
static void big_alloc(int a, int size, int cap) {
    struct embc_buffer_s * b = 0;
    mc_check(!MC_FATAL(b = (nbl & 1) ? embc_buffer_alloc(bal[a], size) : embc_buffer_alloc_unsafe(bal[a], size)) && b, "allocation of %d bytes failed although a buffer is available", size);
    mc_check(b->capacity == cap, "capacity %d for a request of %d, expected %d", b->capacity, size, cap);
    uint8_t * s = (uint8_t *) bal[a];
    mc_check((uint8_t *) b >= s && b->data >= (uint8_t *) (b + 1) && b->data + cap <= s + bsz[a], "the buffer is not in its allocator");
    mc_check(b->cursor == 0 && b->length == 0 && b->reserve == 0, "a new buffer is not empty");
    bl[nbl] = (struct big_s) {b, a, (uint8_t) (1 + nbl * 3 + size)};
    memset(b->data, bl[nbl].tag, cap);
    b->length = (uint16_t) (nbl & 0x7fff);
    ++nbl;
}
static void big_check(void) {
    for (int i = 0; i < nbl; ++i) {
        struct embc_buffer_s * b = bl[i].b;
        mc_check(b->length == (i & 0x7fff), "header of live buffer %d changed", i);
        for (int k = 0; k < b->capacity; ++k) { mc_check(b->data[k] == bl[i].tag, "byte %d of live buffer %d of capacity %d changed", k, i, b->capacity); }
    }
}
static void big_run(void) {
    static const struct { int n; embc_size_t s[11]; } big[] = {
        {1, {127}}, {1, {128}}, {1, {255}}, {1, {256}}, {1, {257}}, {1, {300}}, {2, {3, 300}}, {3, {255, 256, 257}}, {1, {32768}}, {1, {66000}},
        {9, {0, 0, 0, 0, 0, 0, 0, 0, 3}}, {10, {1, 1, 1, 1, 1, 1, 1, 1, 2, 2}}, {11, {1, 2, 1, 2, 1, 2, 1, 2, 3, 3, 3}}, {11, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 40}},
    };
    embc_allocator_set((embc_alloc_fn) mc_malloc, mc_free);
    int c = mc_choose(14), two = mc_choose(2), order = mc_choose(3), edge = mc_choose(3);
    if (two && (c == 8 || c == 9)) { mc_prune(); }
    int total = 0;
    for (int i = 0; i < big[c].n; ++i) { total += big[c].s[i]; }
    bl = malloc(sizeof(*bl) * (total * 2 + 1)); nbl = 0;
    for (int a = 0; a <= two; ++a) {
        bsz[a] = embc_buffer_allocator_instance_size(big[c].s, big[c].n);
        bal[a] = embc_buffer_allocator_new(big[c].s, big[c].n);
    }
    mc_op("%d classes, %d buffers, %d allocators, order %d", big[c].n, total, two + 1, order);
    for (int round = 0; round < 2; ++round) {
        for (int i = 0; i < big[c].n; ++i) {
            int cap = 32 << i, size = edge == 0 ? cap : edge == 1 ? (i ? cap / 2 + 1 : 1) : cap - 1;
            for (int k = 0; k < big[c].s[i]; ++k) { for (int a = 0; a <= two; ++a) { big_alloc(a, size, cap); } if (!(k & 63)) { mc_tick(); } }
            for (int a = 0; a <= two; ++a) { mc_check(embc_buffer_alloc_unsafe(bal[a], size) == 0, "more than %d buffers of capacity %d", (int) big[c].s[i], cap); }
        }
        for (int a = 0; a <= two; ++a) {
            mc_check(embc_buffer_alloc_unsafe(bal[a], (32 << (big[c].n - 1)) + 1) == 0, "a request above the largest class was satisfied");
            mc_check(embc_buffer_alloc_unsafe(bal[a], 70000) == 0 && embc_buffer_alloc_unsafe(bal[a], 0x10001) == 0 && embc_buffer_alloc_unsafe(bal[a], 0x7fffffff) == 0, "a huge request was satisfied");
        }
        mc_count(nbl);
        big_check();
        mc_tick();
        while (nbl) {
            int i = order == 0 ? nbl - 1 : order == 1 ? 0 : nbl / 2;
            struct embc_buffer_s * b = bl[i].b;
            uint8_t * s = (uint8_t *) bal[bl[i].a];
            (void) s;
            if ((nbl & 7) == 3) {
                wrapped = b->manager; wrapper.free = wrapper_free; b->manager = &wrapper; wrapped_freed = 0;
                embc_buffer_free(b);
                mc_check(wrapped_freed == 1 && b->manager == wrapped, "a wrapped manager was called %d times", wrapped_freed);
            } else { embc_buffer_free(b); }
            bl[i] = bl[--nbl];
        }
        mc_count(total);
    }
    mc_state(mc_mix(c, two * 16 + order * 4 + edge));
    for (int a = 0; a <= two; ++a) { embc_buffer_allocator_finalize(bal[a]); embc_free(bal[a]); }
    free(bl);
    mc_check(mc_outstanding() == 0, "memory leak");
}
static void arg_run(void) {    /* no sizes, and sizes that are not positive */
    embc_allocator_set((embc_alloc_fn) mc_malloc, mc_free);
    static const embc_size_t szs[] = {1, 1};
    static const embc_size_t bad[] = {0, -1, -32, -0x7fffffff, -0x100000000LL + 1, -0x7fffffffffffffffLL - 1};
    volatile int k = mc_choose(17); volatile embc_size_t z = 0; struct embc_buffer_s * volatile b = 0; volatile bool f = 0;
    mc_op("argument contract %d", k);
    struct embc_buffer_allocator_s * a = embc_buffer_allocator_new(szs, 2);
    struct embc_buffer_s * kept = embc_buffer_alloc(a, 32);
    if (k == 0) { f = MC_FATAL(z = embc_buffer_allocator_instance_size(0, 2)); }
    else if (k == 1) { f = MC_FATAL(embc_buffer_allocator_initialize(a, 0, 2)); }
    else if (k < 8) { f = MC_FATAL(b = embc_buffer_alloc(a, bad[k - 2])); }
    else if (k < 14) { f = MC_FATAL(b = embc_buffer_alloc_unsafe(a, bad[k - 8])); }
    else if (k == 14) { f = MC_FATAL(kept->manager->free(kept->manager, 0)); }
    else {      /* a buffer of another size, a buffer that is not from the allocator */
        EMBC_BUFFER_STATIC_DEFINE(other, 32);
        struct embc_buffer_s * big = embc_buffer_alloc(a, 64);
        f = MC_FATAL(kept->manager->free(kept->manager, k == 15 ? big : &other));
        embc_buffer_free(big);
    }
    (void) z;
    mc_check(f, "argument %d was accepted", k);
    embc_buffer_free(kept);
    mc_check((b = embc_buffer_alloc(a, 32)) == kept, "the buffer is lost");
    mc_check(embc_buffer_alloc_unsafe(a, 64) && !embc_buffer_alloc_unsafe(a, 1), "the other buffer is lost");
    embc_free(a);
    mc_check(mc_outstanding() == 0, "memory leak");
    mc_state(k);
}
static const struct mc_scenario c10[] = {
    {"arguments", arg_run},
    {"many and large", big_run, 0, 0, 0, 0},
    {"seq 2", alloc_run, 0, 0, 0, 0}, {"seq 1", alloc_run, 0, 0, 1, 0}, {"seq 1,1", alloc_run, 0, 0, 2, 0},
    {"seq 2,0,1", alloc_run, 0, 0, 3, 0}, {"seq 0,1,2", alloc_run, 0, 0, 4, 0}, {"seq 3,2", alloc_run, 0, 0, 5, 0},
    {"seq 1,1,1,1", alloc_run, 0, 0, 6, 0}, {"seq 0,0,1", alloc_run, 0, 0, 7, 0},
    {"every size, 4 classes", alloc_sizes_run, 0, 0, 6, 0}, {"every size, 8 classes", alloc_sizes_run, 0, 0, 8, 0}, {"every size, gap", alloc_sizes_run, 0, 0, 3, 0},
    {0}
};

/* ------------------------------------------------------------ C11 */
#define MAXC 66000
struct model_s { int cap, cursor, length, reserve; uint8_t d[MAXC]; };
static struct { uint8_t g0[16]; EMBC_BUFFER_STATIC_DECLARE(b, 1); uint8_t g1[16]; } s1;
static struct { uint8_t g0[16]; EMBC_BUFFER_STATIC_DECLARE(b, 4); uint8_t g1[16]; } s4;
static struct { uint8_t g0[16]; EMBC_BUFFER_STATIC_DECLARE(b, 5); uint8_t g1[16]; } s5;
static struct { uint8_t g0[16]; EMBC_BUFFER_STATIC_DECLARE(b, 9); uint8_t g1[16]; } s9;
static struct { uint8_t g0[16]; EMBC_BUFFER_STATIC_DECLARE(b, 300); uint8_t g1[16]; } s300;
static struct { uint8_t g0[16]; EMBC_BUFFER_STATIC_DECLARE(b, 65535); uint8_t g1[16]; } s65535;
static struct embc_buffer_s * B, * S;
static uint8_t scratch[MAXC + 8];
static struct model_s M, N;       /* model of the buffer, of the source */
static uint8_t * g0, * g1; static int g1n;
static uint8_t serial;

static void sync_check(const char * what, int data_len) {
    mc_check(B->capacity == M.cap, "%s: capacity changed", what);
    mc_check(embc_buffer_capacity(B) == M.cap, "%s: capacity accessor", what);
    mc_check(embc_buffer_length(B) == M.length, "%s: length is %d, expected %d", what, (int) embc_buffer_length(B), M.length);
    mc_check(embc_buffer_cursor_get(B) == M.cursor, "%s: cursor is %d, expected %d", what, (int) embc_buffer_cursor_get(B), M.cursor);
    mc_check(B->reserve == M.reserve, "%s: reserve changed", what);
    mc_check(embc_buffer_read_remaining(B) == M.length - M.cursor, "%s: read_remaining is %d", what, (int) embc_buffer_read_remaining(B));
    int rem = M.cap - M.cursor - M.reserve;
    mc_check(rem < 0 || embc_buffer_write_remaining(B) == rem, "%s: write_remaining is %d, expected %d", what, (int) embc_buffer_write_remaining(B), rem);
    for (int i = 0; i < data_len; ++i) { mc_check(B->data[i] == M.d[i], "%s: byte %d is 0x%02x, expected 0x%02x", what, i, B->data[i], M.d[i]); }
    if (g0) {
        for (int i = 0; i < 16; ++i) { mc_check(g0[i] == 0x5c, "%s: memory before the buffer changed", what); }
        for (int i = 0; i < g1n; ++i) { mc_check(g1[i] == 0x5c, "%s: memory after the buffer changed", what); }
    }
}
#define SETUP_STATIC(s) do { memset(&s, 0x5c, sizeof(s)); EMBC_BUFFER_STATIC_INITIALIZE(s.b); B = &s.b; g0 = s.g0; g1 = s.g1; g1n = 16; } while (0)

static void m_write(const uint8_t * p, int n) {
    memcpy(M.d + M.cursor, p, n);
    M.cursor += n;
    if (M.cursor > M.length) { M.length = M.cursor; }
}
static uint64_t scalar(void) {
    uint64_t v = 0;
    for (int i = 0; i < 8; ++i) { v = (v << 8) | (uint8_t) (0x81 + 0x11 * i + serial); }
    ++serial;
    return v;
}
static void write_scalar(int k) {
    static const int szs[] = {1, 2, 4, 8, 2, 4, 8};
    int n = szs[k], fit = n <= M.cap - M.cursor - M.reserve, f = 0;
    uint64_t v = scalar() >> (64 - 8 * n);
    mc_op("write scalar kind %d (%d bytes)", k, n);
    switch (k) {
        case 0: f = MC_FATAL(embc_buffer_write_u8(B, (uint8_t) v)); break;
        case 1: f = MC_FATAL(embc_buffer_write_u16_le(B, (uint16_t) v)); break;
        case 2: f = MC_FATAL(embc_buffer_write_u32_le(B, (uint32_t) v)); break;
        case 3: f = MC_FATAL(embc_buffer_write_u64_le(B, v)); break;
        case 4: f = MC_FATAL(embc_buffer_write_u16_be(B, (uint16_t) v)); break;
        case 5: f = MC_FATAL(embc_buffer_write_u32_be(B, (uint32_t) v)); break;
        case 6: f = MC_FATAL(embc_buffer_write_u64_be(B, v)); break;
    }
    mc_check(f == !fit, "write of %d bytes with %d remaining %s", n, M.cap - M.cursor - M.reserve, f ? "was fatal" : "was accepted");
    if (fit) {
        uint8_t t[8];
        for (int i = 0; i < n; ++i) { t[i] = (uint8_t) (v >> (8 * (k < 4 ? i : n - 1 - i))); }
        m_write(t, n);
    }
    sync_check("write scalar", M.cap);
}
static void read_scalar(int k) {
    static const int szs[] = {1, 2, 4, 8, 2, 4, 8};
    int n = szs[k], fit = n <= M.length - M.cursor, f = 0;
    volatile uint64_t v = 0;
    mc_op("read scalar kind %d (%d bytes)", k, n);
    switch (k) {
        case 0: f = MC_FATAL(v = embc_buffer_read_u8(B)); break;
        case 1: f = MC_FATAL(v = embc_buffer_read_u16_le(B)); break;
        case 2: f = MC_FATAL(v = embc_buffer_read_u32_le(B)); break;
        case 3: f = MC_FATAL(v = embc_buffer_read_u64_le(B)); break;
        case 4: f = MC_FATAL(v = embc_buffer_read_u16_be(B)); break;
        case 5: f = MC_FATAL(v = embc_buffer_read_u32_be(B)); break;
        case 6: f = MC_FATAL(v = embc_buffer_read_u64_be(B)); break;
    }
    mc_check(f == !fit, "read of %d bytes with %d remaining %s", n, M.length - M.cursor, f ? "was fatal" : "was accepted");
    if (fit) {
        uint64_t e = 0;
        for (int i = 0; i < n; ++i) { e |= ((uint64_t) M.d[M.cursor + i]) << (8 * (k < 4 ? i : n - 1 - i)); }
        mc_check(v == e, "read 0x%llx, expected 0x%llx", (unsigned long long) v, (unsigned long long) e);
        M.cursor += n;
    }
    sync_check("read scalar", M.cap);
}
/* a choice among the interesting values of 0..hi */
static int around(int hi) {
    if (hi <= 5) { return mc_choose(hi + 1); }
    switch (mc_choose(hi > 40000 ? 9 : hi > 260 ? 8 : 6)) {
        case 8: return 32768;
        case 7: return 256;
        case 6: return 255;
        case 0: return 0;
        case 1: return 1;
        case 2: return 2;
        case 3: return hi - 2;
        case 4: return hi - 1;
        default: return hi;
    }
}
static void op_write(void) {
    int rem = M.cap - M.cursor - M.reserve; if (rem < 0) { rem = 0; }
    int n = around(rem + 1);
    int fit = n <= M.cap - M.cursor - M.reserve || n == 0;
    uint8_t * t = scratch;
    for (int i = 0; i < n; ++i) { t[i] = (uint8_t) (0x20 + ++serial); }
    mc_op("write %d bytes", n);
    int f = MC_FATAL(embc_buffer_write(B, t, n));
    mc_check(f == !fit, "write of %d bytes with %d remaining %s", n, rem, f ? "was fatal" : "was accepted");
    if (fit) { m_write(t, n); }
    sync_check("write", M.cap);
}
static void op_write_str(int trunc) {
    int rem = M.cap - M.cursor - M.reserve; if (rem < 0) { rem = 0; }
    int n = around(rem + 2);
    char * t = (char *) scratch;
    for (int i = 0; i < n; ++i) { t[i] = (char) ('a' + (++serial) % 26); }
    t[n] = 0;
    volatile bool ok = true;
    int fit = n <= rem, f;
    if (trunc) {
        mc_op("write_str_truncate of %d characters", n);
        f = MC_FATAL(ok = embc_buffer_write_str_truncate(B, t));
        mc_check(!f, "write_str_truncate was fatal: %s", mc_fatal_msg);
        mc_check(ok == fit, "write_str_truncate of %d characters into %d bytes returned %d", n, rem, ok);
        m_write((uint8_t *) t, fit ? n : rem);
        sync_check("write_str_truncate", M.cap);
    } else {
        mc_op("write_str of %d characters", n);
        f = MC_FATAL(embc_buffer_write_str(B, t));
        mc_check(f == !fit, "write_str of %d characters into %d bytes %s", n, rem, f ? "was fatal" : "was accepted");
        if (fit) { m_write((uint8_t *) t, n); sync_check("write_str", M.cap); }
        else { /* what was written before the refusal is unspecified, within the writable range */
            mc_check(B->cursor <= B->length && B->length <= M.cap && B->cursor >= M.cursor && B->cursor <= M.cursor + rem, "cursor/length after a refused write_str");
            for (int i = 0; i < M.cap; ++i) {
                if (i < M.cursor || i >= M.cursor + rem) { mc_check(B->data[i] == M.d[i], "refused write_str changed byte %d", i); }
                M.d[i] = B->data[i];
            }
            M.cursor = B->cursor; M.length = B->length;
            sync_check("write_str", M.cap);
        }
    }
}
static void op_read(void) {
    int rem = M.length - M.cursor;
    int n = around(rem + 1);
    uint8_t * t = scratch; int tn = M.cap + 8;
    memset(t, 0x77, tn);
    mc_op("read %d bytes", n);
    int f = MC_FATAL(embc_buffer_read(B, t, n));
    mc_check(f == (n > rem), "read of %d bytes with %d remaining %s", n, rem, f ? "was fatal" : "was accepted");
    if (!f) {
        mc_check(0 == memcmp(t, M.d + M.cursor, n), "read returned other bytes");
        M.cursor += n;
    }
    for (int i = f ? 0 : n; i < tn; ++i) { mc_check(t[i] == 0x77, "read wrote past the requested size"); }
    sync_check("read", M.cap);
}
static void op_cursor(void) {
    int n = M.length <= 5 ? mc_choose(M.length + 3) - 1 : around(M.length + 2) - 1;
    mc_op("cursor_set %d", n);
    int f = MC_FATAL(embc_buffer_cursor_set(B, n));
    mc_check(f == (n < 0 || n > M.length), "cursor_set(%d) with length %d %s", n, M.length, f ? "was fatal" : "was accepted");
    if (!f) { M.cursor = n; }
    sync_check("cursor_set", M.cap);
}
static void op_reserve(void) {
    int n = around(M.cap);
    mc_op("reserve := %d", n);
    B->reserve = n; M.reserve = n;
    sync_check("reserve", M.cap);
}
static void op_erase(void) {
    int start, end;
    if (M.length <= 5) { start = mc_choose(M.length + 2) - 1; end = mc_choose(M.length + 3) - 1; }
    else { start = around(M.length + 1) - 1; end = around(M.length + 2) - 1; }
    mc_op("erase %d..%d of %d", start, end, M.length);
    int bad = start < 0 || start >= M.length || end < 0 || end > M.length;
    int f = MC_FATAL(embc_buffer_erase(B, start, end));
    mc_check(f == bad, "erase(%d, %d) with length %d %s", start, end, M.length, f ? "was fatal" : "was accepted");
    if (!f && end > start) {
        int n = end - start, old = M.length;
        memmove(M.d + start, M.d + end, M.length - end);
        if (M.cursor >= end) { M.cursor -= n; } else if (M.cursor > start) { M.cursor = start; }
        M.length -= n;
        sync_check("erase", M.length);
        for (int i = old; i < M.cap; ++i) { mc_check(B->data[i] == M.d[i], "erase changed byte %d past the length", i); }
        memcpy(M.d, B->data, M.cap);
    } else { sync_check("erase", M.cap); }
}
static int srcn;
static void op_copy(void) {
    int rem = M.cap - M.cursor - M.reserve; if (rem < 0) { rem = 0; }
    int sc = mc_choose(3) * srcn / 2;     /* source cursor 0, half, all */
    embc_buffer_cursor_set(S, sc);
    int src = srcn - sc, lim = rem < src ? rem : src;
    int n = around(lim + 1);
    mc_op("copy %d bytes (source has %d)", n, src);
    int fit = n <= src && n <= M.cap - M.cursor - M.reserve;
    if (n == 0 && M.cap - M.cursor - M.reserve < 0) { fit = -1; }
    int f = MC_FATAL(embc_buffer_copy(B, S, n));
    mc_check(fit < 0 || f == !fit, "copy of %d bytes with %d readable and %d writable %s", n, src, rem, f ? "was fatal" : "was accepted");
    if (!f) { m_write(N.d + sc, n); }
    sync_check("copy", M.cap);
    mc_check(S->length == srcn && S->cursor == sc && 0 == memcmp(S->data, N.d, srcn), "copy changed the source");
}
static struct embc_buffer_allocator_s * al2;
static void buf_run(void) {
    embc_allocator_set((embc_alloc_fn) mc_malloc, mc_free);
    static const embc_size_t szs[] = {2, 1, 0, 0, 1};
    srcn = mc_arg % 10 == 6 || mc_arg % 10 == 7 ? 400 : 6;
    memset(&M, 0, sizeof(M));
    serial = 0;
    al2 = embc_buffer_allocator_new(szs, 5);
    S = embc_buffer_alloc(al2, srcn);
    for (int i = 0; i < srcn; ++i) { N.d[i] = (uint8_t) (0xC0 + i + i / 256); }
    embc_buffer_write(S, N.d, srcn);
    switch (mc_arg % 10) {
        case 1: SETUP_STATIC(s1); M.cap = 1; break;
        case 4: SETUP_STATIC(s4); M.cap = 4; break;
        case 5: SETUP_STATIC(s5); M.cap = 5; break;
        case 9: SETUP_STATIC(s9); M.cap = 9; break;
        case 6: SETUP_STATIC(s300); M.cap = 300; break;
        case 7: SETUP_STATIC(s65535); M.cap = 65535; break;
        default: B = embc_buffer_alloc(al2, 20); M.cap = 32; g0 = 0; break;
    }
    memcpy(M.d, B->data, M.cap);
    mc_check(B->flags == 0 && B->buffer_id == 0, "new buffer flags");
    sync_check("new buffer", M.cap);
    if (mc_arg >= 10) { /* start with content: half full, cursor in the middle */
        uint8_t * t = scratch;
        for (int i = 0; i < M.cap; ++i) { t[i] = (uint8_t) (0x90 + i); }
        int n = M.cap < 9 ? M.cap - 1 : M.cap - 2;
        embc_buffer_write(B, t, n); m_write(t, n);
        embc_buffer_cursor_set(B, n / 2); M.cursor = n / 2;
        sync_check("fill", M.cap);
    }
    int depth = M.cap <= 5 ? mc_tier(3, 4) : 3;
    if (mc_arg >= 10) { depth = 3; }
    if (M.cap >= 300) { depth = mc_arg >= 10 && M.cap == 300 ? mc_tier(2, 3) : M.cap == 300 ? 2 : 1; if (M.cap == 65535 && mc_thorough) { depth = 2; } }
    for (int d = 0; d < depth; ++d) {
        int c = mc_choose(25);
        if (c < 7) { write_scalar(c); }
        else if (c < 14) { read_scalar(c - 7); }
        else { switch (c) {
            case 14: op_write(); break;
            case 15: op_write_str(0); break;
            case 16: op_write_str(1); break;
            case 17: op_read(); break;
            case 18: op_cursor(); break;
            case 19: op_reserve(); break;
            case 20: op_erase(); break;
            case 21: op_copy(); break;
            case 22: mc_op("reset"); embc_buffer_reset(B); M.cursor = M.length = 0; sync_check("reset", M.cap); break;
            case 23: mc_op("clear"); embc_buffer_clear(B); M.cursor = M.length = 0; memset(M.d, 0, M.cap); sync_check("clear", M.cap); break;
            default: mc_op("write from NULL");
                mc_check(MC_FATAL(embc_buffer_write(B, 0, 1)), "write of NULL data was accepted");
                mc_check(!MC_FATAL(embc_buffer_write(B, 0, 0)), "empty write was fatal");
                mc_check(MC_FATAL(embc_buffer_write_str(B, 0)), "write_str of NULL was accepted");
                sync_check("write NULL", M.cap); break;
        } }
        mc_state(mc_mix(mc_mix(mc_mix(M.cursor, M.length), M.reserve), mc_hash(M.cap, M.d, M.length)));
    }
    /* everything reads back */
    embc_buffer_cursor_set(B, 0);
    uint8_t * t = scratch;
    embc_buffer_read(B, t, M.length);
    mc_check(0 == memcmp(t, M.d, M.length), "final read-back differs");
    mc_check(embc_buffer_read_remaining(B) == 0, "final read_remaining");
    embc_buffer_free(B);
    if (g0) { M.cursor = M.length; sync_check("free of a static buffer", M.cap); }
    embc_buffer_free(S);
    embc_free(al2);
    mc_check(mc_outstanding() == 0, "memory leak");
}
/* sizes and positions far out of range, beyond 16, 31 and 32 bits, and far below zero */
static void huge_run(void) {
    static const embc_size_t v[] = {65536, 65536 + 3, 0x7fffffff, 0x80000000LL, 0x80000003LL, 0x100000000LL, 0x100000003LL, 0x10000000000LL, 0x7fffffffffffffffLL, 0x7ffffffffffffffeLL, 0x7fffffff00000003LL,
        -65536, -65535, -0x80000000LL, -0x7fffffffLL, -0x100000000LL, -0x100000000LL + 3, -0x7fffffffffffffffLL, -0x7fffffffffffffffLL - 1};
    embc_size_t x = v[mc_choose(sizeof(v) / sizeof(v[0]))];
    memset(&M, 0, sizeof(M));
    SETUP_STATIC(s9); M.cap = 9;
    memcpy(M.d, B->data, M.cap);
    EMBC_BUFFER_STATIC_DEFINE(src, 8);
    uint8_t t[16] = "abcdefghijkl";
    int n = mc_choose(7);
    embc_buffer_write(B, t, n); m_write(t, n);
    M.cursor = mc_choose(n + 1); embc_buffer_cursor_set(B, M.cursor);
    embc_buffer_write(&src, t, 8); embc_buffer_cursor_set(&src, 2);
    int f = 0, must = 1; volatile int k = mc_choose(6);
    mc_op("operation %d with %lld, length %d, cursor %d", k, (long long) x, n, M.cursor);
    switch (k) {
        case 0: f = MC_FATAL(embc_buffer_write(B, t, x)); must = x > 0; break;
        case 1: f = MC_FATAL(embc_buffer_read(B, t, x)); must = x > 0; break;
        case 2: f = MC_FATAL(embc_buffer_copy(B, &src, x)); must = x > 0; break;
        case 3: f = MC_FATAL(embc_buffer_cursor_set(B, x)); break;
        case 4: f = MC_FATAL(embc_buffer_erase(B, x, n)); break;
        default: f = MC_FATAL(embc_buffer_erase(B, n ? mc_choose(n) : 0, x)); break;
    }
    mc_check(f || !must, "a size or position of %lld was accepted", (long long) x);
    mc_check(0 == memcmp(t, "abcdefghijkl", 12) && src.cursor == 2 && src.length == 8, "the other operand changed");
    sync_check("a refused operation", M.cap);
    mc_state(mc_mix(k * 100 + n * 10 + M.cursor, x));
}
static void define_run(void) {
    EMBC_BUFFER_STATIC_DEFINE(b, 8);
    mc_op("static define");
    g0 = 0; B = &b; memset(&M, 0, sizeof(M)); M.cap = 8;
    memcpy(M.d, B->data, 8);
    sync_check("define", 8);
    for (int i = 0; i < 3; ++i) { if (mc_choose(2)) { op_write(); } else { op_write_str(1); } }
    embc_buffer_free(B);
}
static void null_run(void) {
    EMBC_BUFFER_STATIC_DEFINE(b, 8);
    EMBC_BUFFER_STATIC_DEFINE(src, 8);
    g0 = 0; B = &b; memset(&M, 0, sizeof(M)); M.cap = 8;
    uint8_t t[4] = "abc"; volatile bool f = 0; volatile uint64_t v = 0; volatile bool ok = 0;
    embc_buffer_write(B, t, 3); m_write(t, 3);
    embc_buffer_cursor_set(B, 1); M.cursor = 1;
    memcpy(M.d, B->data, 8);
    embc_buffer_write(&src, t, 3); embc_buffer_cursor_set(&src, 0);
    volatile int k = mc_choose(23);
    mc_op("null contract %d", k);
    switch (k) {
        case 0: f = MC_FATAL(embc_buffer_write(0, t, 1)); break;
        case 1: f = MC_FATAL(embc_buffer_copy(0, &src, 1)); break;
        case 2: f = MC_FATAL(embc_buffer_copy(B, 0, 1)); break;
        case 3: f = MC_FATAL(embc_buffer_write_str(0, "a")); break;
        case 4: f = MC_FATAL(ok = embc_buffer_write_str_truncate(0, "a")); break;
        case 5: f = MC_FATAL(ok = embc_buffer_write_str_truncate(B, 0)); break;
        case 6: f = MC_FATAL(embc_buffer_write_u8(0, 1)); break;
        case 7: f = MC_FATAL(embc_buffer_write_u16_le(0, 1)); break;
        case 8: f = MC_FATAL(embc_buffer_write_u32_le(0, 1)); break;
        case 9: f = MC_FATAL(embc_buffer_write_u64_le(0, 1)); break;
        case 10: f = MC_FATAL(embc_buffer_write_u16_be(0, 1)); break;
        case 11: f = MC_FATAL(embc_buffer_write_u32_be(0, 1)); break;
        case 12: f = MC_FATAL(embc_buffer_write_u64_be(0, 1)); break;
        case 13: f = MC_FATAL(embc_buffer_read(0, t, 1)); break;
        case 14: f = MC_FATAL(embc_buffer_read(B, 0, 1)); break;
        case 15: f = MC_FATAL(v = embc_buffer_read_u8(0)); break;
        case 16: f = MC_FATAL(v = embc_buffer_read_u16_le(0)); break;
        case 17: f = MC_FATAL(v = embc_buffer_read_u32_le(0)); break;
        case 18: f = MC_FATAL(v = embc_buffer_read_u64_le(0)); break;
        case 19: f = MC_FATAL(v = embc_buffer_read_u16_be(0)); break;
        case 20: f = MC_FATAL(v = embc_buffer_read_u32_be(0)); break;
        case 21: f = MC_FATAL(v = embc_buffer_read_u64_be(0)); break;
        default: f = MC_FATAL(embc_buffer_erase(0, 0, 1)); break;
    }
    (void) v; (void) ok;
    mc_check(f, "a null argument was accepted (%d)", k);
    mc_check(src.cursor == 0 && src.length == 3, "the other operand changed");
    sync_check("a refused operation", 8);
    mc_state(k);
}
static const struct mc_scenario c11[] = {
    {"null", null_run},
    {"capacity 1", buf_run, 0, 0, 1, 0}, {"capacity 4", buf_run, 0, 0, 4, 0}, {"capacity 5", buf_run, 0, 0, 5, 0},
    {"capacity 9", buf_run, 0, 0, 9, 0}, {"capacity 32", buf_run, 0, 0, 2, 0},
    {"capacity 4 filled", buf_run, 0, 0, 14, 0}, {"capacity 5 filled", buf_run, 0, 0, 15, 0}, {"capacity 9 filled", buf_run, 0, 0, 19, 0}, {"capacity 32 filled", buf_run, 0, 0, 12, 0},
    {"capacity 300", buf_run, 0, 0, 6, 0}, {"capacity 300 filled", buf_run, 0, 0, 16, 0}, {"capacity 65535", buf_run, 0, 0, 7, 0}, {"capacity 65535 filled", buf_run, 0, 0, 17, 0},
    {"static define", define_run, 0, 0, 0, 0}, {"far out of range", huge_run, 0, 0, 0, 0},
    {0}
};
const struct mc_property mc_properties[] = {
    {"C10", c10},
    {"C11", c11},
    {0}
};
