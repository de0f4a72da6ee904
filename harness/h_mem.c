/* C12: pool.  C13: object pool.  C14: block allocator. */
#include "two.h"
#include "embc/memory/pool.h"
#include "embc/memory/object_pool.h"
#include <string.h>
#include <stdlib.h>
#undef EMBC_MEMORY_POOL_H_
#include "embc/memory/block.h"

#define MAXB 80
static uint8_t * base; static int base_sz;    /* memory the component may use */
static struct { uint8_t * p; int sz; uint8_t tag; } live[MAXB];
static int nlive;
static uint8_t next_tag;

static void live_check(const char * what) {
    for (int i = 0; i < nlive; ++i) {
        for (int k = 0; k < live[i].sz; ++k) {
            mc_check(live[i].p[k] == live[i].tag, "%s: live block %d changed at byte %d", what, i, k);
        }
    }
}
static void live_add(const char * what, uint8_t * p, int sz, int align) {
    mc_check(p != 0, "%s returned null although space is available", what);
    mc_check(p >= base && p + sz <= base + base_sz, "%s returned memory outside the instance", what);
    mc_check(((uintptr_t) p) % align == 0, "%s: misaligned block", what);
    for (int i = 0; i < nlive; ++i) {
        mc_check(p + sz <= live[i].p || live[i].p + live[i].sz <= p, "%s: block overlaps live block %d", what, i);
    }
    live[nlive].p = p; live[nlive].sz = sz; live[nlive].tag = ++next_tag;
    memset(p, next_tag, sz);
    ++nlive;
}
static void live_del(int i) {
    for (; i + 1 < nlive; ++i) { live[i] = live[i + 1]; }
    --nlive;
}
static uint64_t live_hash(void) {
    uint64_t h = nlive;
    for (int i = 0; i < nlive; ++i) { h = mc_mix(h, (live[i].p - base) * 1000 + live[i].sz); }
    return h;
}

/* ------------------------------------------------------------ C12 */
static void pool_run(void) {
    static const int sizes[] = {1, 4, 7, 8, 9, 16, 24, 100};
    nlive = 0; next_tag = 0;
    int n = mc_arg, sz = sizes[mc_choose(8)];
    int32_t isz = embc_pool_instance_size(n, sz);
    mc_check(isz >= n * sz, "instance size %d too small for %d x %d", isz, n, sz);
    base = malloc(isz); base_sz = isz;
    struct embc_pool_s * p = (struct embc_pool_s *) base;
    mc_check(0 == embc_pool_initialize(p, n, sz), "initialize failed");
    mc_check(!embc_pool_is_empty(p), "a new pool is reported empty");
    int depth = n <= 2 ? mc_tier(10, 13) : mc_tier(9, 11);
    for (int d = 0; d < depth; ++d) {
        void * b;
        int c = mc_choose(2 + nlive);
        if (c == 0) {
            if (nlive == n) {
                mc_op("alloc (exhausted)");
                mc_check(MC_FATAL(b = embc_pool_alloc(p)), "alloc from an exhausted pool was not fatal");
            } else {
                mc_op("alloc");
                mc_check(!MC_FATAL(b = embc_pool_alloc(p)), "alloc raised a fatal error with %d of %d allocated", nlive, n);
                live_add("alloc", b, sz, sizeof(int *));
            }
        } else if (c == 1) {
            mc_op("alloc_unsafe");
            if (nlive == n) { mc_check(embc_pool_alloc_unsafe(p) == 0, "alloc_unsafe from an exhausted pool is not null"); }
            else { live_add("alloc_unsafe", embc_pool_alloc_unsafe(p), sz, sizeof(int *)); }
        } else {
            int i = c - 2;
            mc_op("free %d", i);
            uint8_t * q = live[i].p;
            live_check("before free");
            live_del(i);
            memset(q, 0xee, sz);
            embc_pool_free(p, q);
        }
        mc_check(!embc_pool_is_empty(p) == (nlive < n), "is_empty wrong with %d of %d allocated", nlive, n);
        live_check("op");
        mc_state(mc_mix(live_hash(), n * 1000 + sz));
    }
    /* conservation: exactly the rest can still be allocated */
    while (nlive < n) { live_add("drain", embc_pool_alloc_unsafe(p), sz, sizeof(int *)); }
    mc_check(embc_pool_alloc_unsafe(p) == 0 && embc_pool_is_empty(p), "more than %d blocks in the pool", n);
    live_check("end");
    embc_pool_finalize(p);
    free(base);
}
static void pool_big(void) {
    static const int counts[] = {1, 2, 7, 8, 33, 64};
    nlive = 0; next_tag = 0;
    int n = counts[mc_choose(6)], sz = 1 + mc_choose(33);
    base_sz = embc_pool_instance_size(n, sz);
    base = malloc(base_sz);
    struct embc_pool_s * p = (struct embc_pool_s *) base;
    embc_pool_initialize(p, n, sz);
    int order = mc_choose(4);
    for (int round = 0; round < 3; ++round) {
        mc_op("fill a pool of %d x %d and drain it in order %d", n, sz, order);
        while (nlive < n) { live_add("alloc", embc_pool_alloc(p), sz, sizeof(int *)); }
        mc_check(embc_pool_is_empty(p) && embc_pool_alloc_unsafe(p) == 0, "more than %d blocks", n);
        live_check("full");
        int keep = round;
        while (nlive > keep) {
            int i = order == 0 ? 0 : (order == 1 ? nlive - 1 : (order == 2 ? nlive / 2 : (nlive * 7) % nlive));
            void * q = live[i].p;
            live_del(i);
            embc_pool_free(p, q);
            mc_check(!embc_pool_is_empty(p), "pool empty after a free");
        }
        live_check("drained");
    }
    mc_state(n * 100 + sz);
    free(base);
}
/* sizes and counts around the widths of the integers that hold them */
static int fill_order(int order, int n, int left) { return order == 0 ? 0 : (order == 1 ? left - 1 : (left * 7 + n) % left); }
static void pool_wide(void) {
    static const int cfg[][2] = {{127, 8}, {128, 8}, {129, 8}, {255, 4}, {256, 4}, {257, 16}, {300, 24}, {32768, 8}, {65536, 1}, {70000, 8},
                                 {2, 127}, {2, 128}, {3, 255}, {3, 256}, {3, 257}, {2, 32760}, {2, 32768}, {2, 65528}, {2, 65535}, {3, 65536}, {3, 70000}, {2, 1 << 20}};
    int c = mc_choose(22), n = cfg[c][0], sz = cfg[c][1];
    int order = mc_choose(3);
    mc_op("pool of %d x %d, order %d", n, sz, order);
    base_sz = embc_pool_instance_size(n, sz);
    mc_check((int64_t) base_sz >= (int64_t) n * sz, "instance size %d too small for %d x %d", base_sz, n, sz);
    base = malloc(base_sz);
    struct embc_pool_s * p = (struct embc_pool_s *) base;
    mc_check(0 == embc_pool_initialize(p, n, sz), "initialize failed");
    uint8_t ** b = malloc(n * sizeof(*b));
    uint32_t * val = malloc(n * sizeof(*val));
    int left = 0;
    uint32_t next = 1;
    for (int round = 0; round < 3; ++round) {
        while (left < n) {
            uint8_t * q = 0;
            mc_check(!embc_pool_is_empty(p), "pool empty with %d of %d allocated", left, n);
            mc_check(!MC_FATAL(q = (left & 1) ? embc_pool_alloc(p) : embc_pool_alloc_unsafe(p)), "alloc raised a fatal error with %d of %d allocated", left, n);
            mc_check(q && q >= base && q + sz <= base + base_sz, "block %d is outside the instance", left);
            mc_check(((uintptr_t) q) % sizeof(int *) == 0, "block %d misaligned", left);
            memset(q, (int) (next & 0xff), sz);
            for (int k = 0; k < 4 && k < sz; ++k) { q[k] = (uint8_t) (next >> (8 * k)); }
            val[left] = next;
            b[left++] = q;
            next += 1 + (round << 4);
            mc_count(1);
        }
        mc_check(embc_pool_is_empty(p) && embc_pool_alloc_unsafe(p) == 0, "more than %d blocks", n);
        for (int i = 0; i < n; ++i) {
            for (int k = 0; k < sz; ++k) {
                uint8_t e = k < 4 ? (uint8_t) (val[i] >> (8 * k)) : (uint8_t) (val[i] & 0xff);
                mc_check(b[i][k] == e, "block %d of %d changed at byte %d while allocated", i, n, k);
            }
        }
        int keep = round == 0 ? 1 : (round == 1 ? n / 2 : 0);
        while (left > keep) {
            int i = fill_order(order, n, left);
            embc_pool_free(p, b[i]);
            --left;
            b[i] = b[left]; val[i] = val[left];
            mc_check(!embc_pool_is_empty(p), "pool empty after a free");
            mc_count(1);
        }
        mc_tick();
    }
    mc_state(c * 4 + order);
    embc_pool_finalize(p);
    free(b); free(val); free(base);
}
/* two pools side by side: blocks of one are never handed out by the other */
static void pool_two(void) {
    static const int sizes[] = {1, 8, 13};
    struct embc_pool_s * p[2]; uint8_t * bs[2]; int bsz_[2], n[2], sz[2], cnt[2] = {0, 0};
    struct { uint8_t * p; int k; uint8_t tag; } l[8]; int nl = 0; uint8_t tag = 0;
    for (int i = 0; i < 2; ++i) {
        n[i] = 1 + mc_choose(2); sz[i] = sizes[mc_choose(3)];
        bsz_[i] = embc_pool_instance_size(n[i], sz[i]);
        bs[i] = malloc(bsz_[i]);
        p[i] = (struct embc_pool_s *) bs[i];
        mc_check(0 == embc_pool_initialize(p[i], n[i], sz[i]), "initialize failed");
    }
    for (int d = 0; d < mc_tier(5, 7); ++d) {
        int c = mc_choose(2 + nl);
        if (c < 2) {
            mc_op("alloc from pool %d", c);
            uint8_t * q = embc_pool_alloc_unsafe(p[c]);
            mc_check(!q == (cnt[c] == n[c]), "pool %d gave %p with %d of %d allocated", c, (void *) q, cnt[c], n[c]);
            if (q) {
                mc_check(q >= bs[c] && q + sz[c] <= bs[c] + bsz_[c], "block outside pool %d", c);
                l[nl].p = q; l[nl].k = c; l[nl].tag = ++tag; memset(q, tag, sz[c]); ++nl; ++cnt[c];
            }
        } else {
            int i = c - 2;
            mc_op("free block %d to pool %d", i, l[i].k);
            embc_pool_free(p[l[i].k], l[i].p);
            --cnt[l[i].k];
            l[i] = l[--nl];
        }
        uint64_t h = n[0] * 1000 + n[1] * 100 + sz[0] * 20 + sz[1];
        for (int i = 0; i < 2; ++i) { mc_check(!embc_pool_is_empty(p[i]) == (cnt[i] < n[i]), "pool %d is_empty wrong", i); }
        for (int i = 0; i < nl; ++i) {
            h = mc_mix(h, l[i].k * 100 + (l[i].p - bs[l[i].k]));
            for (int k = 0; k < sz[l[i].k]; ++k) { mc_check(l[i].p[k] == l[i].tag, "block %d changed", i); }
        }
        mc_state(h);
    }
    free(bs[0]); free(bs[1]);
}
static void pool_contract(void) {
    volatile int c = mc_choose(10);
    uint8_t buf[1024] __attribute__((aligned(16)));
    memset(buf, 0, sizeof(buf));
    struct embc_pool_s * p = (struct embc_pool_s *) buf;
    mc_op("contract %d", c);
    bool f;
    switch (c) {
        case 0: f = MC_FATAL(embc_pool_initialize(0, 1, 8)); break;
        case 1: f = MC_FATAL(embc_pool_initialize(p, 0, 8)); break;
        case 2: f = MC_FATAL(embc_pool_initialize(p, 1, 0)); break;
        case 3: f = MC_FATAL(embc_pool_is_empty(0)); break;
        case 4: f = MC_FATAL(embc_pool_alloc(0)); break;
        case 5: embc_pool_initialize(p, 1, 8); f = MC_FATAL(embc_pool_free(p, 0)); break;
        case 6: f = MC_FATAL(embc_pool_free(0, buf)); break;
        case 7: f = MC_FATAL(embc_pool_finalize(0)); break;
        case 8: embc_pool_initialize(p, 1, 8); embc_pool_finalize(p); f = MC_FATAL(embc_pool_finalize(p)); break;
        default: f = MC_FATAL(embc_pool_alloc_unsafe(0)); break;
    }
    mc_check(f, "contract violation %d accepted", c);
    mc_state(c);
}

/* ------------------------------------------------------------ C13 */
static int ctor_calls, dtor_calls;
static void * ctor_last, * dtor_last;
static int op_sz;
static uint8_t dtor_tag; static bool dtor_intact;
static void ctor(void * o) { ++ctor_calls; ctor_last = o; memset(o, 0x11, op_sz); }
static void dtor(void * o) {
    ++dtor_calls; dtor_last = o; dtor_intact = true;
    for (int i = 0; i < op_sz; ++i) { if (((uint8_t *) o)[i] != dtor_tag) { dtor_intact = false; } }
}
static int refs[MAXB];

static void opool_run(void) {
    static const int sizes[] = {1, 7, 8, 9, 40};
    nlive = 0; next_tag = 0; ctor_calls = dtor_calls = 0;
    int n = mc_arg, sz = op_sz = sizes[mc_choose(5)];
    int kind = mc_choose(4);
    base_sz = embc_object_pool_instance_size(n, sz);
    mc_check(base_sz >= n * sz, "instance size too small");
    base = malloc(base_sz);
    struct embc_object_pool_s * p = (struct embc_object_pool_s *) base;
    mc_check(0 == embc_object_pool_initialize(p, n, sz, (kind & 1) ? ctor : 0, (kind & 2) ? dtor : 0), "initialize failed");
    int depth = n == 1 ? mc_tier(9, 11) : mc_tier(7, 9);
    for (int d = 0; d < depth; ++d) {
        int c0 = ctor_calls, d0 = dtor_calls;
        int c = mc_choose(1 + 2 * nlive);
        if (c == 0) {
            void * o = 0;
            if (nlive == n) {
                mc_op("alloc (exhausted)");
                mc_check(MC_FATAL(o = embc_object_pool_alloc(p)), "alloc from an exhausted pool was not fatal");
                mc_check(ctor_calls == c0, "constructor ran for a failed allocation");
            } else {
                mc_op("alloc");
                mc_check(!MC_FATAL(o = embc_object_pool_alloc(p)), "alloc raised a fatal error with %d of %d live", nlive, n);
                mc_check(o != 0 && (uint8_t *) o >= base && (uint8_t *) o + sz <= base + base_sz, "object outside the pool");
                if (kind & 1) { mc_check(ctor_calls == c0 + 1 && ctor_last == o, "constructor ran %d times", ctor_calls - c0); }
                for (int k = 0; k < sz; ++k) {
                    mc_check(((uint8_t *) o)[k] == ((kind & 1) ? 0x11 : 0), "new object byte %d is 0x%02x", k, ((uint8_t *) o)[k]);
                }
                live_add("alloc", o, sz, 8);
                refs[nlive - 1] = 1;
            }
            mc_check(dtor_calls == d0, "destructor ran during alloc");
        } else if (c <= nlive) {
            int i = c - 1;
            mc_op("incr object %d", i);
            embc_object_pool_incr(live[i].p);
            ++refs[i];
            mc_check(ctor_calls == c0 && dtor_calls == d0, "constructor or destructor ran during incr");
        } else {
            int i = c - 1 - nlive;
            mc_op("decr object %d with %d references", i, refs[i]);
            dtor_tag = live[i].tag;
            bool r = embc_object_pool_decr(live[i].p);
            --refs[i];
            mc_check(r == (refs[i] == 0), "decr returned %d with %d references left", r, refs[i]);
            mc_check(ctor_calls == c0, "constructor ran during decr");
            if (refs[i] == 0) {
                if (kind & 2) {
                    mc_check(dtor_calls == d0 + 1 && dtor_last == live[i].p, "destructor ran %d times", dtor_calls - d0);
                    mc_check(dtor_intact, "the object was modified before its destructor ran");
                }
                for (int k = i; k + 1 < nlive; ++k) { refs[k] = refs[k + 1]; }
                live_del(i);
            } else {
                mc_check(dtor_calls == d0, "destructor ran with %d references left", refs[i]);
            }
        }
        live_check("op");
        uint64_t h = live_hash();
        for (int i = 0; i < nlive; ++i) { h = mc_mix(h, refs[i]); }
        mc_state(mc_mix(h, n * 1000 + sz * 4 + kind));
    }
    dtor_tag = 0;
    int left = n - nlive;
    for (int i = 0; i < left; ++i) {
        void * o = 0;
        mc_check(!MC_FATAL(o = embc_object_pool_alloc(p)), "only %d of %d free objects can be allocated", i, left);
        live_add("drain", o, sz, 8);
    }
    mc_check(MC_FATAL(embc_object_pool_alloc(p)), "more than %d objects in the pool", n);
    live_check("end");
    embc_object_pool_finalize(p);
    free(base);
}
static void opool_saturate(void) {
    static const int up[] = {1, 255, 256, 257, 32767, 32768, 65534};
    op_sz = 8; nlive = 0; ctor_calls = dtor_calls = 0;
    base_sz = embc_object_pool_instance_size(2, 8);
    base = malloc(base_sz);
    struct embc_object_pool_s * p = (struct embc_object_pool_s *) base;
    embc_object_pool_initialize(p, 2, 8, ctor, dtor);
    uint8_t * o = embc_object_pool_alloc(p);
    int n = up[mc_choose(7)];
    mc_op("%d references", n + 1);
    for (int i = 0; i < n; ++i) { embc_object_pool_incr(o); }
    if (n == 65534) { mc_check(MC_FATAL(embc_object_pool_incr(o)), "reference count wrapped silently"); }
    for (int i = 0; i < n; ++i) { mc_check(!embc_object_pool_decr(o), "released with %d references left", n - i); }
    mc_check(dtor_calls == 0, "destroyed early");
    mc_check(embc_object_pool_decr(o) && dtor_calls == 1, "not destroyed at the last release");
    mc_count(2 * n);
    mc_state(n);
}
/* Constructors and destructors that use the pool themselves: an object with a
 * child from the same pool.  The child is allocated by the constructor and
 * released by the destructor; the destructor may also allocate and release a
 * scratch object.  While an object is being destroyed it is not yet free. */
struct node_s { struct node_s * child; uint32_t id; uint32_t pad[2]; };
static struct embc_object_pool_s * npool;
static int nest_kind, nested_depth, node_live, node_n;
static uint32_t node_id;
static struct node_s * in_dtor[8]; static int n_in_dtor;
static void node_ctor(void * o) {
    struct node_s * nd = o;
    ++node_live;
    memset(nd, 0, sizeof(*nd));
    nd->id = ++node_id;
    for (int i = 0; i < n_in_dtor; ++i) { mc_check(nd != in_dtor[i], "an object is handed out again while its destructor runs"); }
    if ((nest_kind & 1) && nested_depth == 0 && n_in_dtor == 0) {
        ++nested_depth;
        nd->child = embc_object_pool_alloc(npool);
        mc_check(nd->child != nd, "the object was handed out again while its constructor runs");
        --nested_depth;
    }
}
static void node_dtor(void * o) {
    struct node_s * nd = o;
    uint32_t id = nd->id;
    in_dtor[n_in_dtor++] = nd;
    if (n_in_dtor == 1 && (nest_kind & 2) && node_live < node_n) {
        struct node_s * s = 0;
        mc_check(!MC_FATAL(s = embc_object_pool_alloc(npool)), "a free object cannot be allocated in a destructor");
        mc_check(s != nd, "the object was handed out while its destructor runs");
        mc_check(embc_object_pool_decr(s), "scratch object not released");
    } else if (n_in_dtor == 1 && (nest_kind & 2)) {
        mc_check(MC_FATAL(embc_object_pool_alloc(npool)), "alloc in a destructor succeeded with every object in use");
    }
    if (nd->child) { mc_check(embc_object_pool_decr(nd->child), "child not released"); }
    mc_check(nd->id == id, "the object was modified while its destructor runs");
    nd->id = 0;
    --n_in_dtor;
    --node_live;
}
static void opool_nested(void) {
    nest_kind = mc_arg;
    int n = node_n = 2 + mc_choose(3);
    base_sz = embc_object_pool_instance_size(n, sizeof(struct node_s));
    base = malloc(base_sz);
    npool = (struct embc_object_pool_s *) base;
    mc_check(0 == embc_object_pool_initialize(npool, n, sizeof(struct node_s), node_ctor, node_dtor), "initialize failed");
    struct node_s * l[8]; uint32_t ids[8]; int r[8]; int nl = 0;
    int per = (nest_kind & 1) ? 2 : 1;
    for (int d = 0; d < mc_tier(6, 8); ++d) {
        int c = mc_choose(1 + 2 * nl);
        if (c == 0) {
            if ((nl + 1) * per > n) { break; }
            mc_op("alloc");
            mc_check(!MC_FATAL(l[nl] = embc_object_pool_alloc(npool)), "alloc failed with %d of %d in use", nl * per, n);
            ids[nl] = l[nl]->id; r[nl] = 1; ++nl;
        } else if (c <= nl) {
            mc_op("incr %d", c - 1);
            embc_object_pool_incr(l[c - 1]); ++r[c - 1];
        } else {
            int i = c - 1 - nl;
            mc_op("decr %d with %d references", i, r[i]);
            bool x = embc_object_pool_decr(l[i]);
            --r[i];
            mc_check(x == (r[i] == 0), "decr returned %d with %d references left", x, r[i]);
            if (!r[i]) { --nl; l[i] = l[nl]; ids[i] = ids[nl]; r[i] = r[nl]; }
        }
        mc_check(node_live == nl * per, "%d objects constructed and not destroyed, %d expected", node_live, nl * per);
        uint64_t h = n * 8 + nest_kind;
        for (int i = 0; i < nl; ++i) {
            mc_check(l[i]->id == ids[i], "object %d changed", i);
            h = mc_mix(h, ((uint8_t *) l[i] - base) * 100 + r[i]);
        }
        mc_state(h);
    }
    while (nl) { while (--r[nl - 1]) { mc_check(!embc_object_pool_decr(l[nl - 1]), "early release"); } mc_check(embc_object_pool_decr(l[nl - 1]), "no release"); --nl; }
    nest_kind = 0;
    uint8_t * prev[8];
    for (int i = 0; i < n; ++i) {
        void * o = 0;
        mc_check(!MC_FATAL(o = embc_object_pool_alloc(npool)), "only %d of %d objects left in the pool", i, n);
        prev[i] = o;
        for (int k = 0; k < i; ++k) { mc_check(prev[k] != prev[i], "object handed out twice"); }
    }
    mc_check(MC_FATAL(embc_object_pool_alloc(npool)), "more than %d objects in the pool", n);
    free(base);
}
static int wide_ctor, wide_dtor;
static void w_ctor(void * o) { ++wide_ctor; memset(o, 0x11, op_sz); }
static void w_dtor(void * o) { (void) o; ++wide_dtor; }
static void opool_wide(void) {
    static const int cfg[][2] = {{127, 8}, {128, 8}, {129, 8}, {255, 4}, {256, 4}, {257, 16}, {300, 24}, {32768, 8}, {65536, 1}, {70000, 8},
                                 {2, 127}, {2, 128}, {3, 255}, {3, 256}, {3, 257}, {2, 32760}, {2, 32768}, {2, 65528}, {2, 65535}, {3, 65536}, {3, 70000}, {2, 1 << 20}};
    int c = mc_choose(22), n = cfg[c][0], sz = op_sz = cfg[c][1];
    int order = mc_choose(3), kind = mc_choose(2);
    mc_op("object pool of %d x %d, order %d", n, sz, order);
    wide_ctor = wide_dtor = 0;
    base_sz = embc_object_pool_instance_size(n, sz);
    mc_check((int64_t) base_sz >= (int64_t) n * sz, "instance size %d too small for %d x %d", base_sz, n, sz);
    base = malloc(base_sz);
    struct embc_object_pool_s * p = (struct embc_object_pool_s *) base;
    mc_check(0 == embc_object_pool_initialize(p, n, sz, kind ? w_ctor : 0, kind ? w_dtor : 0), "initialize failed");
    uint8_t ** b = malloc(n * sizeof(*b));
    uint32_t * val = malloc(n * sizeof(*val));
    int left = 0, allocs = 0, frees = 0;
    uint32_t next = 1;
    for (int round = 0; round < 3; ++round) {
        while (left < n) {
            uint8_t * q = 0;
            mc_check(!MC_FATAL(q = embc_object_pool_alloc(p)), "alloc raised a fatal error with %d of %d in use", left, n);
            ++allocs;
            mc_check(q && q >= base && q + sz <= base + base_sz, "object %d is outside the instance", left);
            for (int k = 0; k < sz; ++k) { mc_check(q[k] == (kind ? 0x11 : 0), "byte %d of new object %d is 0x%02x", k, left, q[k]); }
            memset(q, (int) (next & 0xff), sz);
            for (int k = 0; k < 4 && k < sz; ++k) { q[k] = (uint8_t) (next >> (8 * k)); }
            val[left] = next;
            b[left++] = q;
            next += 1 + (round << 4);
            mc_count(1);
        }
        mc_check(MC_FATAL(embc_object_pool_alloc(p)), "more than %d objects", n);
        for (int i = 0; i < n; ++i) {
            for (int k = 0; k < sz; ++k) {
                uint8_t e = k < 4 ? (uint8_t) (val[i] >> (8 * k)) : (uint8_t) (val[i] & 0xff);
                mc_check(b[i][k] == e, "object %d of %d changed at byte %d while in use", i, n, k);
            }
        }
        int keep = round == 0 ? 1 : (round == 1 ? n / 2 : 0);
        while (left > keep) {
            int i = fill_order(order, n, left);
            embc_object_pool_incr(b[i]);
            mc_check(!embc_object_pool_decr(b[i]), "released with a reference left");
            mc_check(embc_object_pool_decr(b[i]), "not released");
            ++frees;
            --left;
            b[i] = b[left]; val[i] = val[left];
            mc_count(1);
        }
        mc_check(!kind || (wide_ctor == allocs && wide_dtor == frees), "%d constructions for %d allocations, %d destructions for %d releases", wide_ctor, allocs, wide_dtor, frees);
        mc_tick();
    }
    mc_state(c * 8 + order * 2 + kind);
    embc_object_pool_finalize(p);
    free(b); free(val); free(base);
}
static void opool_args(void) {
    uint8_t buf[1024] __attribute__((aligned(16)));
    struct embc_object_pool_s * p = (struct embc_object_pool_s *) buf;
    volatile int c = mc_choose(7);
    mc_op("invalid argument %d", c);
    volatile int rc = 1;
    switch (c) {
        case 0: rc = embc_object_pool_initialize(0, 1, 8, 0, 0); break;
        case 1: rc = embc_object_pool_initialize(p, 0, 8, 0, 0); break;
        case 2: rc = embc_object_pool_initialize(p, -1, 8, 0, 0); break;
        case 3: rc = embc_object_pool_initialize(p, 1, 0, 0, 0); break;
        case 4: rc = embc_object_pool_initialize(p, 1, -8, 0, 0); break;
        case 5: rc = MC_FATAL(embc_object_pool_finalize(0)); break;
        case 6: embc_object_pool_initialize(p, 1, 8, 0, 0); embc_object_pool_finalize(p); rc = MC_FATAL(embc_object_pool_finalize(p)); break;
    }
    mc_check(rc != 0, "initialize accepted invalid argument %d", c);
    mc_state(c);
}

/* ------------------------------------------------------------ C14 */
static bool used[MAXB];
static int nblk, bsz;
static struct embc_mblock_s * mb;
static uint8_t * inst;
static int lsize[MAXB];

static bool fits(int k) {
    int run = 0;
    for (int i = 0; i < nblk; ++i) {
        run = used[i] ? 0 : run + 1;
        if (run >= k) { return true; }
    }
    return false;
}
static void mb_alloc(int size, bool unsafe) {
    int k = (int) (((int64_t) size + bsz - 1) / bsz);
    bool ok = k <= nblk && fits(k);
    uint8_t * p = 0;
    mc_op("alloc%s(%d) = %d blocks", unsafe ? "_unsafe" : "", size, k);
    bool f = unsafe ? MC_FATAL(p = embc_mblock_alloc_unsafe(mb, size)) : MC_FATAL(p = embc_mblock_alloc(mb, size));
    if (!ok) {
        if (unsafe) { mc_check(!f && p == 0, "alloc_unsafe(%d) without a free run of %d blocks returned %s", size, k, f ? "fatal" : "memory"); }
        else { mc_check(f, "alloc(%d) without a free run of %d blocks was not fatal", size, k); }
        return;
    }
    mc_check(!f, "alloc(%d) raised a fatal error although %d contiguous blocks are free", size, k);
    mc_check(p != 0, "alloc(%d) failed although %d contiguous blocks are free", size, k);
    lsize[nlive] = size;
    live_add("alloc", p, size, 1);
    mc_check((p - base) % bsz == 0, "allocation not on a block boundary");
    for (int i = 0; i < k; ++i) {
        int b = (p - base) / bsz + i;
        mc_check(b < nblk && !used[b], "allocation covers block %d which is in use", b);
        used[b] = true;
    }
}
static void mb_free(int i) {
    int k = (lsize[i] + bsz - 1) / bsz;
    uint8_t * p = live[i].p;
    mc_op("free(block %d, %d)", (int) (p - base) / bsz, lsize[i]);
    for (int q = 0; q < k; ++q) { used[(p - base) / bsz + q] = false; }
    int sz = lsize[i];
    for (int q = i; q + 1 < nlive; ++q) { lsize[q] = lsize[q + 1]; }
    live_del(i);
    mc_check(!MC_FATAL(embc_mblock_free(mb, p, sz)), "free raised a fatal error: %s", mc_fatal_msg);
}
static void mb_new(int blocks, int block_size, int slack) {
    nlive = 0; next_tag = 0; nblk = blocks; bsz = block_size;
    memset(used, 0, sizeof(used));
    base_sz = blocks * block_size + slack;
    base = malloc(base_sz);
    inst = malloc(embc_mblock_instance_size(base_sz, bsz));
    mb = (struct embc_mblock_s *) inst;
    mc_check(0 == embc_mblock_initialize(mb, base, base_sz, bsz), "initialize failed");
}
static void mb_end(void) {
    /* conservation: the free blocks, and only they, can be allocated one by one */
    while (nlive < MAXB - 1 && fits(1)) { mb_alloc(1 + mc_arg * 0, true); }
    mb_alloc(1, true);
    live_check("end");
    while (nlive) { mb_free(0); }
    mb_alloc(nblk * bsz, false);
    embc_mblock_finalize(mb);
    free(inst);
    free(base);
    mc_check(mc_outstanding() == 0, "leak");
}
static void mb_hash(void) {
    uint64_t h = nblk * 100 + bsz;
    for (int i = 0; i < nblk; ++i) { h = h * 2 + used[i]; h = mc_mix(h, i); }
    mc_state(mc_mix(h, live_hash()));
}
static void mblock_ops(void) {
    static const int cfg[][3] = {{3, 8, 0}, {5, 4, 3}, {8, 8, 0}, {9, 1, 0}, {16, 2, 1}, {17, 8, 7}, {33, 4, 0}};
    const int * c = cfg[mc_arg];
    mb_new(c[0], c[1], c[2]);
    int depth = mc_tier(6, 8);
    for (int d = 0; d < depth; ++d) {
        int a = mc_choose(6 + nlive);
        int s = bsz;
        switch (a) {
            case 0: mb_alloc(s, true); break;
            case 1: mb_alloc(2 * s, true); break;
            case 2: mb_alloc(2 * s + 1, true); break;
            case 3: mb_alloc(nblk * s - s, true); break;
            case 4: mb_alloc(((nblk + 1) / 2) * s, false); break;
            case 5: mb_alloc(nblk * s + 1, mc_bool()); break;
            default: mb_free(a - 6); break;
        }
        live_check("op");
        mb_hash();
    }
    mb_end();
}
/* every occupancy pattern of a few blocks, then every allocation size */
static void mblock_patterns(void) {
    int n = mc_arg;
    mb_new(n, 4, 0);
    for (int i = 0; i < n; ++i) { mb_alloc(4, true); }
    int pat = mc_choose(1 << 5) | (mc_choose(1 << (n > 10 ? 5 : n - 5)) << (n > 10 ? 6 : 5));
    for (int i = n - 1; i >= 0; --i) { if (!(pat & (1 << (i % 11)))) { int q; for (q = 0; q < nlive; ++q) { if (live[q].p == base + 4 * i) { mb_free(q); break; } } } }
    live_check("pattern");
    mb_hash();
    int k = 1 + mc_choose(n);
    mb_alloc(4 * k, true);
    live_check("alloc");
    if (nlive && mc_bool()) { mb_free(nlive - 1); mb_alloc(4 * (1 + mc_choose(4)), true); }
    live_check("again");
    mb_end();
}

/* requests far larger than the memory, up to the largest possible */
static void mblock_huge(void) {
    static const int cfg[][2] = {{1, 8}, {3, 8}, {9, 4}, {17, 3}, {32, 16}, {4, 1000}};
    static const int sizes[] = {INT32_MAX, INT32_MAX - 1, INT32_MAX - 2, INT32_MAX - 3, INT32_MAX - 7, INT32_MAX - 8, INT32_MAX - 15, INT32_MAX - 998, INT32_MAX - 1000, 1 << 30, (1 << 30) + 1, 1 << 24, 65536, 65537, (1 << 16) + 8, 100000};
    int c = mc_choose(6), n = cfg[c][0];
    mb_new(n, cfg[c][1], 0);
    int a = mc_choose(n < 4 ? n + 1 : 4), size = sizes[mc_choose(16)];
    if (a == 3) { a = n; }
    for (int i = 0; i < a; ++i) { mb_alloc(bsz, true); }
    mb_alloc(size, mc_bool());
    live_check("after");
    mb_hash();
    mb_alloc(size, true);
    mb_end();
}

/* many blocks, large blocks: reference is a byte per block */
static uint8_t * wused;
static void mblock_wide(void) {
    static const int cfg[][2] = {{127, 4}, {128, 4}, {255, 4}, {256, 4}, {257, 1}, {300, 3}, {1000, 8}, {32768, 2}, {65535, 1}, {65536, 1}, {70000, 1},
                                 {3, 255}, {3, 256}, {3, 257}, {9, 32768}, {9, 65535}, {5, 65536}, {5, 70000}};
    int c = mc_choose(18), n = cfg[c][0], sz = cfg[c][1];
    int keep_from = mc_choose(3);            /* which blocks stay allocated */
    int k1 = mc_choose(6);
    base_sz = n * sz;
    base = malloc(base_sz);
    inst = malloc(embc_mblock_instance_size(base_sz, sz));
    mb = (struct embc_mblock_s *) inst;
    mc_check(0 == embc_mblock_initialize(mb, base, base_sz, sz), "initialize failed");
    wused = calloc(1, n);
    /* a first and a last allocation, then one that spans the rest */
    int a = n / 3, z = 1;
    mc_op("%d blocks of %d, alloc %d", n, sz, a * sz);
    uint8_t * p1 = 0, * p2 = 0, * p3 = 0;
    mc_check(!MC_FATAL(p1 = embc_mblock_alloc(mb, a * sz)) && p1 && p1 >= base && p1 + a * sz <= base + base_sz, "alloc of %d blocks of %d failed", a, n);
    memset(p1, 1, a * sz);
    mc_check(!MC_FATAL(p2 = embc_mblock_alloc(mb, z * sz)) && p2 && p2 >= base && p2 + z * sz <= base + base_sz, "alloc of %d blocks after %d of %d failed", z, a, n);
    memset(p2, 2, z * sz);
    int rest = n - a - z;
    mc_check(p1 + a * sz <= p2 || p2 + z * sz <= p1, "overlap");
    /* the allocations leave one run at least of the reference's largest size */
    memset(wused + (p1 - base) / sz, 1, a);
    memset(wused + (p2 - base) / sz, 1, z);
    int best = 0, run = 0;
    for (int i = 0; i < n; ++i) { run = wused[i] ? 0 : run + 1; if (run > best) { best = run; } }
    if (best < n) { mc_check(embc_mblock_alloc_unsafe(mb, best * sz + 1) == 0, "a run of %d blocks was allocated with %d free", best + 1, best); }
    mc_check(!MC_FATAL(p3 = embc_mblock_alloc(mb, best * sz)) && p3 && p3 >= base && p3 + best * sz <= base + base_sz, "alloc of the remaining run of %d blocks of %d failed", best, n);
    mc_check(p3 + best * sz <= p1 || p1 + a * sz <= p3, "overlap with the first");
    mc_check(p3 + best * sz <= p2 || p2 + z * sz <= p3, "overlap with the second");
    memset(p3, 3, best * sz);
    for (int i = 0; i < a * sz; ++i) { mc_check(p1[i] == 1, "first changed"); }
    for (int i = 0; i < z * sz; ++i) { mc_check(p2[i] == 2, "second changed"); }
    (void) rest;
    mc_count(6);
    /* free one of the three and allocate its blocks again in pieces */
    uint8_t * fp = keep_from == 0 ? p1 : (keep_from == 1 ? p2 : p3);
    int fb = keep_from == 0 ? a : (keep_from == 1 ? z : best);
    mc_op("free the run of %d blocks", fb);
    mc_check(!MC_FATAL(embc_mblock_free(mb, fp, fb * sz)), "free raised a fatal error");
    static const int pieces[] = {1, 2, 7, 8, 9, 256};
    int piece = pieces[k1], got = 0;
    int extra = n - a - z - best;             /* other free blocks: too short for the run, maybe long enough for a piece */
    uint8_t * q;
    memset(fp, 9, fb * sz);
    for (; got * piece + piece <= fb; ++got) {
        if (n > 1000 && piece < 256 && got > 300) { break; }
        q = embc_mblock_alloc_unsafe(mb, piece * sz - (sz > 1 ? mc_arg : 0));
        mc_check(q, "piece %d of %d blocks not allocated, %d were freed", got, piece, fb);
        mc_check(extra || (q >= fp && q + piece * sz <= fp + fb * sz), "piece outside the freed blocks");
        if (q >= fp && q < fp + fb * sz) {
            mc_check(q[0] == 9 && q[piece * sz - 1] == 9, "blocks handed out twice");
            memset(q, 8, piece * sz);
        }
        mc_count(1);
    }
    mc_state((c * 3 + keep_from) * 8 + k1);
    free(wused); free(base); free(inst);
}

/* ------------------------------------------------------------ two instances */
static uint64_t t_mem[2][64], t_data[2][16]; static void * t_obj[2][3];
static void t_ctor0(void * p) { *(uint8_t *) p = 1; two_put(1000); }
static void t_dtor0(void * p) { two_put(2000 + *(uint8_t *) p); }
static void t_ctor1(void * p) { *(uint8_t *) p = 2; two_put(1001); }
static void t_dtor1(void * p) { two_put(2100 + *(uint8_t *) p); }
static void t_opool(int i, int s, int k) {
    struct embc_object_pool_s * p = (struct embc_object_pool_s *) t_mem[i];
    static const char ops[][8] = {"abABcC", "aiAAbB", "abBcAC"};    /* a, b, c: allocate; A, B, C: release; i: another reference */
    if (k == 0) {
        mc_check(embc_object_pool_instance_size(3, 8) <= (int) sizeof(t_mem[i]), "instance size");
        two_put(embc_object_pool_initialize(p, 3, 8, i ? t_ctor1 : t_ctor0, i ? t_dtor1 : t_dtor0));
        return;
    }
    if (k == 7) { embc_object_pool_finalize(p); return; }
    char c = ops[s][k - 1];
    if (c >= 'a' && c <= 'c') {
        uint8_t * o = embc_object_pool_alloc(p);
        t_obj[i][c - 'a'] = o;
        mc_check(o > (uint8_t *) p && o < (uint8_t *) (t_mem[i] + 64), "allocated outside the instance");
        two_put(o - (uint8_t *) p); o[1] = c;
    }
    else if (c == 'i') { embc_object_pool_incr(t_obj[i][0]); }
    else { two_put(embc_object_pool_decr(t_obj[i][c - 'A'])); }
    two_bytes(t_obj[i][0], 2);
}
static void t_mblock(int i, int s, int k) {
    struct embc_mblock_s * m = (struct embc_mblock_s *) t_mem[i];
    static const char ops[][8] = {"112F1F", "3F1F2F", "21FF31"};    /* 1, 2, 3: allocate as many blocks; F: release the oldest */
    static int n[2], h[2], sz[2][8]; static uint8_t * b[2][8];
    if (k == 0) {
        mc_check(embc_mblock_instance_size(64, 8) <= (int) sizeof(t_mem[i]), "instance size");
        two_put(embc_mblock_initialize(m, t_data[i], 64, 8)); n[i] = h[i] = 0;
        return;
    }
    if (k == 7) { embc_mblock_finalize(m); return; }
    char c = ops[s][k - 1];
    if (c != 'F') { int z = (c - '0') * 8; uint8_t * p = embc_mblock_alloc(m, z); two_put(p - (uint8_t *) t_data[i]); b[i][n[i]] = p; sz[i][n[i]++] = z; }
    else { embc_mblock_free(m, b[i][h[i]], sz[i][h[i]]); ++h[i]; }
}
static void t_opool_run(void) { static const struct two_s w = {3, 8, t_opool}; two_run_(&w); }
static void t_mblock_run(void) { static const struct two_s w = {3, 8, t_mblock}; two_run_(&w); }

static void mblock_contract(void) {
    uint64_t ib[64]; uint8_t mem[64]; volatile bool f = 0; void * volatile p = 0; volatile int32_t z = 0;
    struct embc_mblock_s * m = (struct embc_mblock_s *) ib;
    mc_check(embc_mblock_instance_size(32, 8) <= (int) sizeof(ib), "instance size");
    embc_mblock_initialize(m, mem + 16, 32, 8);
    uint8_t * a = embc_mblock_alloc(m, 16);
    volatile int k = mc_choose(22); int n = 0;
    mc_op("contract %d", k);
    memset(mem, 0x3c, sizeof(mem));
    switch (k) {
        case 0: f = MC_FATAL(z = embc_mblock_instance_size(0, 8)); break;
        case 1: f = MC_FATAL(z = embc_mblock_instance_size(-8, 8)); break;
        case 2: f = MC_FATAL(z = embc_mblock_instance_size(8, 0)); break;
        case 3: f = MC_FATAL(z = embc_mblock_instance_size(8, -8)); break;
        case 4: f = MC_FATAL(z = embc_mblock_initialize(0, mem, 32, 8)); break;
        case 5: f = MC_FATAL(z = embc_mblock_initialize(m, 0, 32, 8)); break;
        case 6: f = MC_FATAL(z = embc_mblock_initialize(m, mem, 0, 8)); break;
        case 7: f = MC_FATAL(z = embc_mblock_initialize(m, mem, 32, 0)); break;
        case 8: f = MC_FATAL(z = embc_mblock_initialize(m, mem, -32, -8)); break;
        case 9: f = MC_FATAL(p = embc_mblock_alloc(0, 8)); break;
        case 10: f = MC_FATAL(p = embc_mblock_alloc_unsafe(0, 8)); break;
        case 11: f = MC_FATAL(p = embc_mblock_alloc(m, 0)); break;
        case 12: f = MC_FATAL(p = embc_mblock_alloc_unsafe(m, 0)); break;
        case 13: f = MC_FATAL(p = embc_mblock_alloc_unsafe(m, -8)); break;
        case 14: f = MC_FATAL(embc_mblock_free(m, mem + 8, 8)); break;       /* before the memory */
        case 15: f = MC_FATAL(embc_mblock_free(m, mem + 15, 8)); break;
        case 16: f = MC_FATAL(embc_mblock_free(m, mem + 48, 8)); break;      /* behind it */
        case 17: f = MC_FATAL(embc_mblock_free(m, mem + 56, 8)); break;
        case 18: f = MC_FATAL(embc_mblock_free(m, mem + 32, 8)); break;      /* not allocated */
        case 19: f = MC_FATAL(embc_mblock_free(m, mem + 40, 8)); break;
        case 20: f = MC_FATAL(embc_mblock_free(m, 0, 8)); break;
        default: f = MC_FATAL(p = embc_mblock_alloc(m, -1)); break;
    }
    (void) z; (void) p;
    mc_check(f, "contract violation %d accepted", k);
    if (k > 8) {      /* nothing has changed */
        mc_check(embc_mblock_alloc_unsafe(m, 24) == 0, "the refused call freed blocks");
        while ((p = embc_mblock_alloc_unsafe(m, 8))) { mc_check((uint8_t *) p >= a + 16 && (uint8_t *) p < mem + 48, "overlap"); ++n; }
        mc_check(n == 2, "%d blocks left, expected 2", n);
        for (int i = 0; i < 64; ++i) { mc_check(mem[i] == 0x3c, "memory changed"); }
    }
    mc_state(k);
}
static const struct mc_scenario c12[] = {
    {"ops-1", pool_run, 0, 0, 1}, {"ops-2", pool_run, 0, 0, 2}, {"ops-3", pool_run, 0, 0, 3}, {"ops-4", pool_run, 0, 0, 4},
    {"fill-drain", pool_big}, {"wide", pool_wide}, {"two-pools", pool_two}, {"contract", pool_contract}, {0}
};
static const struct mc_scenario c13[] = {
    {"two-pools", t_opool_run},
    {"ops-1", opool_run, 0, 0, 1}, {"ops-2", opool_run, 0, 0, 2}, {"ops-3", opool_run, 0, 0, 3}, {"ops-5", opool_run, 0, 0, 5},
    {"many-references", opool_saturate}, {"wide", opool_wide},
    {"nested-none", opool_nested, 0, 0, 0}, {"nested-child", opool_nested, 0, 0, 1}, {"nested-scratch", opool_nested, 0, 0, 2}, {"nested-both", opool_nested, 0, 0, 3}, {"arguments", opool_args}, {0}
};
static const struct mc_scenario c14[] = {
    {"contract", mblock_contract},
    {"two-instances", t_mblock_run},
    {"ops-3x8", mblock_ops, 0, 0, 0}, {"ops-5x4", mblock_ops, 0, 0, 1}, {"ops-8x8", mblock_ops, 0, 0, 2}, {"ops-9x1", mblock_ops, 0, 0, 3},
    {"ops-16x2", mblock_ops, 0, 0, 4}, {"ops-17x8", mblock_ops, 0, 0, 5}, {"ops-33x4", mblock_ops, 0, 0, 6},
    {"patterns-8", mblock_patterns, 0, 0, 8}, {"patterns-10", mblock_patterns, 0, 0, 10}, {"patterns-34", mblock_patterns, 0, 0, 34}, {"huge", mblock_huge, 0, 0, 0}, {"wide", mblock_wide, 0, 0, 0}, {"wide-short", mblock_wide, 0, 0, 1},
    {0}
};
const struct mc_property mc_properties[] = {
    {"C12", c12},
    {"C13", c13},
    {"C14", c14},
    {0}
};
