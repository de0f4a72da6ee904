/* C16, C17: integer map.  C18: generic hash map.  C19: string map. */
#include "two.h"
#include "embc/collections/intmap.h"
#include "embc/collections/hashmap.h"
#include "embc/collections/strmap.h"
#include "embc/ec.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

static void start(void) {
    embc_allocator_set((embc_alloc_fn) mc_malloc, mc_free);
}

/* ------------------------------------------------------------ C16 */
#define MAXU 640
static embc_size_t ukey[MAXU];   /* the universe of keys */
static int un;
static void * uval[MAXU];
static bool upres[MAXU];
static int ucount;
static struct embc_intmap_s * im;

static int u_add(embc_size_t k) {
    for (int i = 0; i < un; ++i) { if (ukey[i] == k) { return i; } }
    ukey[un] = k; upres[un] = false; uval[un] = 0;
    return un++;
}
static uint64_t u_hash(void) {
    uint64_t h = un;
    for (int i = 0; i < un; ++i) { if (upres[i]) { h = mc_mix(h, ukey[i] * 31 + (intptr_t) uval[i]); } }
    return h;
}
static void im_verify(const char * what) {
    mc_check(embc_intmap_length(im) == ucount, "%s: length %d, expected %d", what, (int) embc_intmap_length(im), ucount);
    for (int i = 0; i < un; ++i) {
        void * v = (void *) 0x7777;
        int rc = embc_intmap_get(im, ukey[i], &v);
        if (upres[i]) {
            mc_check(rc == 0, "%s: key %lld lost (rc %d)", what, (long long) ukey[i], rc);
            mc_check(v == uval[i], "%s: key %lld has value %p, expected %p", what, (long long) ukey[i], v, uval[i]);
        } else {
            mc_check(rc == EMBC_ERROR_NOT_FOUND, "%s: key %lld present but never put or removed (rc %d)", what, (long long) ukey[i], rc);
            mc_check(v == 0, "%s: get of absent key %lld gives the value %p", what, (long long) ukey[i], v);
        }
        mc_check(embc_intmap_get(im, ukey[i], 0) == rc, "%s: get without result pointer differs", what);
    }
    mc_state(u_hash());
}
static void im_put(int i, void * v, bool want_old) {
    void * old = (void *) 0x5555;
    mc_op("put(%lld, %p)", (long long) ukey[i], v);
    int rc = embc_intmap_put(im, ukey[i], v, want_old ? &old : 0);
    mc_check(rc == 0, "put(%lld) returned %d", (long long) ukey[i], rc);
    if (want_old) {
        void * e = upres[i] ? uval[i] : 0;
        mc_check(old == e, "put(%lld) reported previous value %p, expected %p", (long long) ukey[i], old, e);
    }
    if (!upres[i]) { upres[i] = true; ++ucount; }
    uval[i] = v;
}
static void im_remove(int i, bool want_old) {
    void * old = (void *) 0x5555;
    mc_op("remove(%lld)", (long long) ukey[i]);
    int rc = embc_intmap_remove(im, ukey[i], want_old ? &old : 0);
    if (upres[i]) {
        mc_check(rc == 0, "remove(%lld) returned %d", (long long) ukey[i], rc);
        if (want_old) { mc_check(old == uval[i], "remove(%lld) reported %p, expected %p", (long long) ukey[i], old, uval[i]); }
        upres[i] = false; --ucount; uval[i] = 0;
    } else {
        mc_check(rc == EMBC_ERROR_NOT_FOUND, "remove(%lld) of an absent key returned %d", (long long) ukey[i], rc);
    }
}
static void im_new(void) {
    start();
    un = 0; ucount = 0;
    im = embc_intmap_new();
    mc_check(im != 0, "intmap_new returned null");
}
static void im_end(void) {
    embc_intmap_free(im);
    mc_check(mc_outstanding() == 0, "intmap_free leaked %ld blocks", mc_outstanding());
}
static void im_churn(void) {        /* many keys over time, few at a time */
    static const int strides[] = {1, 7, 8, 32, -3, 1 << 20};
    im_new();
    int held = 1 + 4 * mc_choose(3), n = 70000; embc_size_t st = strides[mc_choose(6)]; long base = 0;
    mc_op("%d keys at a time, stride %lld", held, (long long) st);
    for (int i = 0; i < n; ++i) {
        void * old = (void *) 1, * v = 0;
        mc_check(0 == embc_intmap_put(im, i * st, (void *) (intptr_t) (i + 1), &old) && old == 0, "put of key %lld after %d others", (long long) (i * st), i);
        if (i >= held) { mc_check(0 == embc_intmap_remove(im, (i - held) * st, &v) && v == (void *) (intptr_t) (i - held + 1), "remove of key %lld", (long long) ((i - held) * st)); }
        mc_check(embc_intmap_length(im) == (i < held ? i + 1 : held), "length %lld after %d puts", (long long) embc_intmap_length(im), i + 1);
        if (i >= held) { mc_check(0 == embc_intmap_get(im, (i - held + 1) * st, &v) && v == (void *) (intptr_t) (i - held + 2) && embc_intmap_get(im, (i - held) * st, 0), "get after %d puts", i); }
        if (i == 1000) { base = mc_outstanding(); }
        if (!(i & 255)) { mc_tick(); }
    }
    mc_count(n);
    mc_check(mc_outstanding() <= base + 64, "%ld blocks in use after 70000 keys of which %d were present at a time, %ld after 1000", mc_outstanding(), held, base);
    mc_state(mc_mix(held, st));
    im_end();
}
static void im_small(void) {
    static const embc_size_t k[] = {0, 8, 32, -1, INTPTR_MIN, 7, INTPTR_MAX};
    int nk = mc_tier(5, 7);
    im_new();
    for (int i = 0; i < nk; ++i) { u_add(k[i]); }
    im_verify("new");
    int depth = mc_tier(4, 5);
    for (int d = 0; d < depth; ++d) {
        int i = mc_choose(nk);
        switch (mc_choose(4)) {
            case 0: im_put(i, (void *) (intptr_t) (100 + d), true); break;
            case 1: im_put(i, 0, false); break;
            case 2: im_remove(i, true); break;
            case 3: im_remove(i, false); break;
        }
        im_verify("op");
    }
    im_end();
}
/* fill to every level around each growth step with keys of various strides, then a few operations */
static void im_growth(void) {
    static const embc_size_t stride[] = {1, 8, 16, 32, 64, -1, -8, 128, 3, 512};
    static const int fill_q[] = {5, 7, 8, 9, 12, 13, 14, 15, 16, 17, 24, 31, 32, 61, 62, 63, 64, 65, 100, 129};
    static const int fill_t[] = {5, 7, 8, 9, 12, 13, 14, 15, 16, 17, 24, 31, 32, 61, 62, 63, 64, 65, 100, 129, 253, 254, 255, 256, 300, 511, 513};
    im_new();
    int n = mc_thorough ? fill_t[mc_choose(27)] : fill_q[mc_choose(20)];
    embc_size_t s = stride[mc_choose(10)];
    embc_size_t base = mc_choose(2) ? -3 : 0;
    bool down = mc_bool();
    for (int k = 0; k < n; ++k) { u_add(base + s * (down ? n - 1 - k : k)); }
    for (int k = 0; k < n; ++k) { im_put(k, (void *) (intptr_t) (1000 + k), (k & 1)); if (n < 40 || k > n - 4) { im_verify("fill"); } }
    int extra = u_add(base + s * n);
    u_add(base + s * (n + 8));
    int pick[4] = {0, n / 2, n - 1, extra};
    int depth = mc_tier(2, 3);
    for (int d = 0; d < depth; ++d) {
        int i = pick[mc_choose(4)];
        if (mc_bool()) { im_remove(i, true); } else { im_put(i, (void *) (intptr_t) (5 + d), true); }
        im_verify("op after fill");
    }
    im_end();
}
/* a mixture of two key families, removal before growth */
static void im_mixed(void) {
    im_new();
    int n = 16;
    for (int k = 0; k < n; ++k) { u_add(mc_arg * (k / 2) + (k & 1)); }
    int holes = mc_choose(8);
    for (int k = 0; k < 13; ++k) { im_put(k, (void *) (intptr_t) (k + 1), true); }
    for (int b = 0; b < 3; ++b) { if (holes & (1 << b)) { im_remove(4 * b, true); } }
    im_verify("holes");
    for (int d = 0; d < mc_tier(3, 4); ++d) {
        int i = 8 + mc_choose(8);
        if (mc_bool()) { im_put(i, (void *) (intptr_t) (50 + d), true); } else { im_remove(i, true); }
        im_verify("mixed");
    }
    for (int k = 0; k < n; ++k) { im_put(k, (void *) (intptr_t) (200 + k), true); im_verify("refill"); }
    im_end();
}
/* thousands of entries, against an array */
static void im_huge(void) {
    static const int ns[] = {300, 1000, 5000, 32769, 65530, 65540, 70000, 270000};
    static const embc_size_t stride[] = {1, -1, 7, 8, 65537};
    int c = mc_choose(8), sc = mc_choose(5), n = ns[c], order = mc_choose(2), rem = mc_choose(3);
    if (sc == 3 && n > 5000 && !mc_thorough) { mc_prune(); }
    if (n > 70000 && (sc > 1 || (!mc_thorough && (sc != order || rem)))) { mc_prune(); }
    embc_size_t st = stride[sc];
    start();
    im = embc_intmap_new();
    mc_op("put %d keys, stride %lld, order %d, removal %d", n, (long long) st, order, rem);
    for (int i = 0; i < n; ++i) {
        embc_size_t k = st * (order ? n - 1 - i : i);
        void * old = (void *) 1;
        mc_check(0 == embc_intmap_put(im, k, (void *) (intptr_t) (k + 1), &old) && old == 0, "put of new key %lld as number %d", (long long) k, i + 1);
        mc_check(embc_intmap_length(im) == i + 1, "length %lld after %d puts", (long long) embc_intmap_length(im), i + 1);
        if (!(i & 63)) { mc_tick(); }
    }
    mc_count(n);
    /* every third, the first half or nothing is removed */
    int left = n;
    for (int i = 0; i < n; ++i) {
        bool r = rem == 0 ? (i % 3 == 0) : (rem == 1 ? i < n / 2 : false);
        if (!r) { continue; }
        void * old = 0;
        mc_check(0 == embc_intmap_remove(im, st * i, &old) && old == (void *) (intptr_t) (st * i + 1), "remove of key %lld", (long long) (st * i));
        mc_check(embc_intmap_length(im) == --left, "length after removal");
        if (!(i & 63)) { mc_tick(); }
    }
    for (int i = -3; i < n + 3; ++i) {
        void * v = (void *) 7;
        bool r = i < 0 || i >= n || (rem == 0 ? (i % 3 == 0) : (rem == 1 ? i < n / 2 : false));
        int rc = embc_intmap_get(im, st * i, &v);
        mc_check((rc == 0) == !r, "get of key %lld returns %d with %d of %d keys", (long long) (st * i), rc, left, n);
        mc_check(v == (r ? 0 : (void *) (intptr_t) (st * i + 1)), "get of key %lld gives a wrong value", (long long) (st * i));
        if (!(i & 63)) { mc_tick(); }
    }
    uint8_t * seen = calloc(1, n);
    struct embc_intmap_iterator_s * it = embc_intmap_iterator_new(im);
    embc_size_t k; void * v; int cnt = 0;
    while (0 == embc_intmap_iterator_next(it, &k, &v)) {
        embc_size_t i = k / st;
        mc_check(k == i * st && i >= 0 && i < n && !seen[i] && v == (void *) (intptr_t) (k + 1), "iteration returned key %lld", (long long) k);
        seen[i] = 1; ++cnt;
    }
    embc_intmap_iterator_free(it);
    mc_check(cnt == left, "iteration returned %d of %d keys", cnt, left);
    free(seen);
    mc_state(((c * 5 + sc) * 2 + order) * 3 + rem);
    im_end();
}
EMBC_INTMAP_DECLARE(tmap, char const *)
EMBC_INTMAP_DEFINE_STRUCT(tmap)
EMBC_INTMAP_DEFINE(tmap, char const *)

static void im_typed(void) {
    start();
    struct tmap_s * m = tmap_new();
    static char const * const val[3] = {"x", "y", 0};
    char const * cur[4] = {0};
    bool pres[4] = {0};
    int cnt = 0;
    for (int d = 0; d < mc_tier(3, 4); ++d) {
        int k = mc_choose(4);
        char const * old = "?";
        if (mc_bool()) {
            char const * v = val[mc_choose(3)];
            mc_op("typed put(%d, %s)", k * 8, v ? v : "null");
            mc_check(0 == tmap_put(m, k * 8, v, &old), "typed put failed");
            mc_check(old == (pres[k] ? cur[k] : 0), "typed put: old value wrong");
            if (!pres[k]) { ++cnt; pres[k] = true; }
            cur[k] = v;
        } else {
            mc_op("typed remove(%d)", k * 8);
            int rc = tmap_remove(m, k * 8, &old);
            mc_check(rc == (pres[k] ? 0 : EMBC_ERROR_NOT_FOUND), "typed remove rc %d", rc);
            if (pres[k]) { mc_check(old == cur[k], "typed remove: old value wrong"); pres[k] = false; --cnt; }
        }
        mc_check(tmap_length(m) == cnt, "typed length wrong");
        int seen = 0;
        struct tmap_iterator_s * it = tmap_iterator_new(m);
        embc_size_t kk; char const * vv;
        while (0 == tmap_iterator_next(it, &kk, &vv)) {
            mc_check(kk % 8 == 0 && kk >= 0 && kk < 32 && pres[kk / 8] && cur[kk / 8] == vv && !(seen & (1 << (kk / 8))), "typed iteration wrong");
            seen |= 1 << (kk / 8);
        }
        tmap_iterator_free(it);
        for (int q = 0; q < 4; ++q) {
            vv = "?";
            mc_check(tmap_get(m, q * 8, &vv) == (pres[q] ? 0 : EMBC_ERROR_NOT_FOUND), "typed get rc");
            if (pres[q]) { mc_check(vv == cur[q] && (seen & (1 << q)), "typed get/iteration value"); }
        }
    }
    tmap_free(m);
    mc_check(mc_outstanding() == 0, "typed free leaked %ld blocks", mc_outstanding());
}

/* ------------------------------------------------------------ C17 */
#define MAXIT 3
struct it_s {
    struct embc_intmap_iterator_s * it;
    bool must[MAXU];     /* present since creation, not yet returned */
    bool seen[MAXU];     /* returned and not re-inserted since */
};
static struct it_s its[MAXIT];

static void it_new(int q) {
    mc_op("iterator %d new", q);
    its[q].it = embc_intmap_iterator_new(im);
    for (int i = 0; i < un; ++i) { its[q].must[i] = upres[i]; its[q].seen[i] = false; }
}
static void it_free(int q) {
    mc_op("iterator %d free", q);
    embc_intmap_iterator_free(its[q].it);
    its[q].it = 0;
}
static bool it_next(int q) {
    embc_size_t k = 12345; void * v = (void *) 0x1;
    struct it_s * t = &its[q];
    mc_op("iterator %d next", q);
    int rc = embc_intmap_iterator_next(t->it, &k, &v);
    if (rc == 0) {
        int i;
        for (i = 0; i < un && ukey[i] != k; ++i) { }
        mc_note("   -> %lld", (long long) k);
        mc_check(i < un && upres[i], "iterator %d returned key %lld which is not in the map", q, (long long) k);
        mc_check(!t->seen[i], "iterator %d returned key %lld twice", q, (long long) k);
        mc_check(v == uval[i], "iterator %d returned a wrong value for key %lld", q, (long long) k);
        t->seen[i] = true;
        t->must[i] = false;
        return true;
    }
    mc_note("   -> end");
    mc_check(rc == EMBC_ERROR_NOT_FOUND, "iterator %d next returned %d", q, rc);
    for (int i = 0; i < un; ++i) {
        mc_check(!t->must[i], "iterator %d ended without returning key %lld", q, (long long) ukey[i]);
    }
    return false;
}
static void it_put(int i, void * v) {
    bool fresh = !upres[i];
    im_put(i, v, true);
    if (fresh) { for (int q = 0; q < MAXIT; ++q) { its[q].seen[i] = false; } }
}
static void it_remove(int i) {
    im_remove(i, true);
    for (int q = 0; q < MAXIT; ++q) { its[q].must[i] = false; its[q].seen[i] = false; }
}
static void it_drain(int q) {
    for (int n = 0; ; ++n) {
        if (!it_next(q)) { break; }
        mc_check(n < 2 * MAXU, "iterator %d does not end", q);
    }
    it_next(q);
}
static void it_finish(void) {
    for (int q = 0; q < MAXIT; ++q) {
        if (its[q].it) { it_drain(q); it_free(q); im_verify("after iterator free"); }
    }
    it_new(0); it_drain(0); it_free(0);
    im_verify("final");
    im_end();
}
static void it_ops(void) {
    static const embc_size_t keys[][5] = {{0, 8, 7, 15, 23}, {3, 11, 5, 6, 13}, {0, 1, 2, -8, -1}};
    const embc_size_t * k = keys[mc_arg];
    memset(its, 0, sizeof(its));
    im_new();
    for (int i = 0; i < 5; ++i) { u_add(k[i]); }
    int set = mc_choose(16);
    for (int i = 0; i < 4; ++i) { if (set & (1 << i)) { it_put(i, (void *) (intptr_t) (i + 1)); } }
    it_new(0);
    int depth = mc_tier(5, 6);
    for (int d = 0; d < depth; ++d) {
        int c = mc_choose(14);
        if (c == 0) { if (!its[0].it) { mc_prune(); } it_next(0); }
        else if (c == 1) { if (!its[1].it) { mc_prune(); } it_next(1); }
        else if (c == 2) { int q = its[0].it ? (its[1].it ? 2 : 1) : 0; if (its[q].it || q == 2) { mc_prune(); } it_new(q); }
        else if (c == 3) { if (!its[0].it) { mc_prune(); } it_free(0); }
        else if (c < 9) { it_remove(c - 4); }
        else { it_put(c - 9, (void *) (intptr_t) (10 + d)); }
        mc_state(mc_mix(u_hash(), mc_hash(1, its, 0) + (its[0].it ? 1 : 0) + (its[1].it ? 2 : 0)));
    }
    it_finish();
}
/* three iterators at once, freed in any order */
static void it_three(void) {
    static const embc_size_t k[] = {0, 8, 3, 7};
    memset(its, 0, sizeof(its));
    im_new();
    for (int i = 0; i < 4; ++i) { u_add(k[i]); it_put(i, (void *) (intptr_t) (i + 1)); }
    for (int q = 0; q < 3; ++q) {
        it_new(q);
        int n = mc_choose(3);
        for (int i = 0; i < n; ++i) { it_next(q); }
    }
    for (int d = 0; d < mc_tier(4, 5); ++d) {
        int c = mc_choose(11);
        if (c < 3) { if (!its[c].it) { mc_prune(); } it_next(c); }
        else if (c < 6) { if (!its[c - 3].it) { it_new(c - 3); } else { it_free(c - 3); } }
        else if (c < 10) { it_remove(c - 6); }
        else { it_put(mc_choose(4), (void *) (intptr_t) (10 + d)); }
        mc_state(mc_mix(u_hash(), (its[0].it ? 1 : 0) + (its[1].it ? 2 : 0) + (its[2].it ? 4 : 0)));
    }
    it_finish();
}
/* large maps: iterate, stop part way, mutate (crossing the growth threshold), go on */
static void it_large(void) {
    static const int fill[] = {12, 13, 14, 15, 20, 61, 62, 63, 130, 253, 254, 255, 300};
    static const embc_size_t stride[] = {1, 8, 32, -1, 5};
    memset(its, 0, sizeof(its));
    im_new();
    int n = fill[mc_choose(13)];
    if (n > 100 && !mc_thorough && n != 254) { mc_prune(); }
    embc_size_t s = stride[mc_choose(5)];
    for (int i = 0; i < n + 8; ++i) { u_add(s * i); }
    for (int i = 0; i < n; ++i) { it_put(i, (void *) (intptr_t) (i + 1)); }
    static const int stops[] = {0, 1, 2, 7, 11};
    int stop = stops[mc_choose(5)];
    it_new(0);
    for (int i = 0; i < stop; ++i) { it_next(0); }
    int two = mc_choose(3); /* a second iterator: none, kept, freed before the changes */
    if (two) { it_new(1); it_next(1); }
    if (two == 2) { it_free(mc_bool() ? 0 : 1); }
    for (int d = 0; d < mc_tier(2, 3); ++d) {
        switch (mc_choose(5)) {
            case 0: for (int i = n; i < n + 8; ++i) { it_put(i, (void *) (intptr_t) (i + 500)); } break;
            case 1: it_put(n, 0); break;
            case 2: { /* remove what an iterator returns next, per a sibling probe in key order */
                int i = mc_choose(3);
                it_remove(i == 0 ? 0 : (i == 1 ? n / 2 : n - 1));
                break;
            }
            case 3: for (int i = 0; i < n; i += 2) { it_remove(i); } break;
            case 4: if (its[0].it) { it_next(0); } if (its[1].it) { it_next(1); } break;
        }
    }
    it_finish();
}

/* ------------------------------------------------------------ C18 */
static int hm_kind;
static embc_size_t hm_hash(void * v) {
    intptr_t x = (intptr_t) v & 0xffff;
    switch (hm_kind) {
        case 0: return x;
        case 1: return 7;
        case 2: return -x;
        case 3: return x << 40;
        default: return (x % 3) * 8 + 1;
    }
}
static bool hm_equiv(void * a, void * b) {
    return ((intptr_t) a & 0xffff) == ((intptr_t) b & 0xffff);
}
static struct embc_hashmap_s * hm;
static void hm_verify(const char * what) {
    mc_check(embc_hashmap_length(hm) == ucount, "%s: length %d, expected %d", what, (int) embc_hashmap_length(hm), ucount);
    for (int i = 0; i < un; ++i) {
        for (int alias = 0; alias < 2; ++alias) {
            void * v = (void *) 0x7777;
            int rc = embc_hashmap_get(hm, (void *) (ukey[i] + (alias ? 0x30000 : 0)), &v);
            mc_check(rc == (upres[i] ? 0 : EMBC_ERROR_NOT_FOUND), "%s: get(%lld) returned %d", what, (long long) ukey[i], rc);
            if (upres[i]) { mc_check(v == uval[i], "%s: get(%lld) wrong value", what, (long long) ukey[i]); }
            else { mc_check(v == 0, "%s: get of absent key %lld gives a value", what, (long long) ukey[i]); }
            mc_check(rc == embc_hashmap_get(hm, (void *) ukey[i], 0), "%s: get without result pointer differs", what);
        }
    }
    mc_state(mc_mix(u_hash(), hm_kind));
}
static void hm_put(int i, void * v, int mode) {
    void * old = (void *) 0x5555;
    mc_op("put(%lld%s, %p)", (long long) ukey[i], (mode & 1) ? " (equal key, other address)" : "", v);
    int rc = embc_hashmap_put(hm, (void *) (ukey[i] + ((mode & 1) ? 0x10000 : 0)), v, (mode & 2) ? 0 : &old);
    mc_check(rc == 0, "put returned %d", rc);
    if (!(mode & 2)) { mc_check(old == (upres[i] ? uval[i] : 0), "put(%lld): previous value %p wrong", (long long) ukey[i], old); }
    if (!upres[i]) { upres[i] = true; ++ucount; }
    uval[i] = v;
}
static void hm_run(void) {
    static const int fill[] = {0, 1, 5, 8, 9, 16, 17, 33, 65};
    start();
    un = ucount = 0;
    hm_kind = mc_choose(5);
    hm = embc_hashmap_new(hm_hash, hm_equiv);
    mc_check(hm != 0, "hashmap_new returned null");
    int n = fill[mc_choose(9)];
    for (int i = 0; i < n; ++i) { u_add(i * 8); }
    for (int i = 0; i < n; ++i) { hm_put(i, (void *) (intptr_t) (i + 1), i & 3); if (n < 20) { hm_verify("fill"); } }
    int a = u_add(0), b = u_add(8), c = u_add(1), e = u_add(1000);
    int pick[4] = {a, b, c, e};
    for (int d = 0; d < mc_tier(3, 4); ++d) {
        hm_put(pick[mc_choose(4)], mc_bool() ? (void *) (intptr_t) (300 + d) : 0, mc_choose(4));
        hm_verify("op");
    }
    embc_hashmap_free(hm);
    mc_check(mc_outstanding() == 0, "hashmap_free leaked %ld blocks", mc_outstanding());
}
static void hm_huge(void) {
    static const int ns[] = {255, 256, 257, 300, 1000, 5000};
    start();
    hm_kind = mc_choose(5);
    int n = ns[mc_choose(mc_tier(5, 6))];
    hm = embc_hashmap_new(hm_hash, hm_equiv);
    mc_op("%d keys, hash %d", n, hm_kind);
    for (int i = 0; i < n; ++i) {
        void * old = (void *) 1;
        mc_check(0 == embc_hashmap_put(hm, (void *) (intptr_t) i, (void *) (intptr_t) (i + 5), &old) && old == 0, "put of new key %d", i);
        mc_check(embc_hashmap_length(hm) == i + 1, "length %lld after %d puts", (long long) embc_hashmap_length(hm), i + 1);
        if (!(i & 15)) { mc_tick(); }
    }
    mc_count(n);
    for (int i = 0; i < n; i += 2) {
        void * old = 0;
        mc_check(0 == embc_hashmap_put(hm, (void *) (intptr_t) (i | 0x50000), (void *) (intptr_t) (i + 9), &old) && old == (void *) (intptr_t) (i + 5), "replacing key %d", i);
    }
    mc_check(embc_hashmap_length(hm) == n, "length after replacing");
    for (int i = 0; i < n + 3; ++i) {
        void * v = (void *) 7;
        int rc = embc_hashmap_get(hm, (void *) (intptr_t) i, &v);
        mc_check((rc == 0) == (i < n) && v == (i < n ? (void *) (intptr_t) (i + ((i & 1) ? 5 : 9)) : 0), "get of key %d of %d", i, n);
    }
    mc_state(n * 8 + hm_kind);
    embc_hashmap_free(hm);
    mc_check(mc_outstanding() == 0, "hashmap_free leaked %ld blocks", mc_outstanding());
}
/* more keys than 16 bits count: each lives in one of few long chains */
static embc_size_t hw_hash(void * v) { return (intptr_t) v; }
static bool hw_equiv(void * a, void * b) { return a == b; }
static void hm_wide(void) {
    start();
    int n = mc_tier(mc_choose(2) ? 32770 : 3000, mc_choose(2) ? 65540 : 32770);
    hm = embc_hashmap_new(hw_hash, hw_equiv);
    mc_op("%d keys", n);
    for (int i = 0; i < n; ++i) {
        if (embc_hashmap_put(hm, (void *) (intptr_t) i, (void *) (intptr_t) (i + 5), 0) || embc_hashmap_length(hm) != i + 1) {
            mc_check(0, "length %lld after %d puts", (long long) embc_hashmap_length(hm), i + 1);
        }
        if (!(i & 15)) { mc_tick(); }
    }
    mc_count(n);
    for (int i = 0; i < n + 3; i += 127) {
        void * v = (void *) 7;
        int rc = embc_hashmap_get(hm, (void *) (intptr_t) i, &v);
        mc_check((rc == 0) == (i < n) && v == (i < n ? (void *) (intptr_t) (i + 5) : 0), "get of key %d of %d", i, n);
        mc_tick();
    }
    mc_state(n);
    embc_hashmap_free(hm);
    mc_check(mc_outstanding() == 0, "hashmap_free leaked %ld blocks", mc_outstanding());
}
static void hm_args(void) {
    start();
    int k = mc_choose(3);
    mc_op("hashmap_new with a missing function (%d), free(null), length(null)", k);
    mc_check(embc_hashmap_new(k & 1 ? hm_hash : 0, k & 2 ? hm_equiv : 0) == 0, "hashmap_new accepted a missing function");
    embc_hashmap_free(0);
    mc_check(embc_hashmap_length(0) == 0, "length(null)");
    void * v = 0; volatile int x = 0;
    mc_check(MC_FATAL(x = embc_hashmap_put(0, &v, &v, 0)) && MC_FATAL(x = embc_hashmap_get(0, &v, &v)), "a null map was accepted");
    (void) x;
    mc_check(mc_outstanding() == 0, "leak");
    mc_state(k);
}

/* ------------------------------------------------------------ C19 */
static const char * skeys[17] = {"", "a", "!", "Ez", "FY", "aa", "ab", "abc", "abcd", "abcde", "\xff\x80", "b",
    "a-rather-long-key-that-is-longer-than-any-fixed-size-buffer-one-might-pick-for-it-0123456789-0123456789-0123456789"};
#define NSK 13
static struct embc_strmap_s * sm;
static void * sval[17]; static bool spres[17]; static int scount;

static char * key_copy(const char * s) {
    char * p = malloc(strlen(s) + 1);
    memcpy(p, s, strlen(s) + 1);
    return p;
}
static void key_drop(char * p) {
    memset(p, 'Z', strlen(p));
    free(p);
}
static void sm_verify(const char * what, int nk) {
    uint64_t h = 5;
    mc_check(embc_strmap_length(sm) == scount, "%s: length %d, expected %d", what, (int) embc_strmap_length(sm), scount);
    for (int i = 0; i < nk; ++i) {
        void * v = (void *) 0x7777;
        char * k = key_copy(skeys[i]);
        int rc = embc_strmap_get(sm, k, &v);
        if (spres[i]) { mc_check(rc == 0 && v == sval[i], "%s: get(\"%s\") rc %d value %p, expected %p", what, k, rc, v, sval[i]); }
        else { mc_check(rc != 0, "%s: get(\"%s\") found an absent key", what, k); mc_check(v == 0, "%s: get(\"%s\") of an absent key gives a value", what, k); }
        mc_check((embc_strmap_get(sm, k, 0) != 0) == (rc != 0), "%s: get without result pointer differs", what);
        key_drop(k);
        h = mc_mix(h, spres[i] ? (intptr_t) sval[i] + 1 : 0);
    }
    mc_state(h);
}
static void sm_put(int i, void * v, bool want) {
    void * old = (void *) 0x5555;
    char * k = key_copy(skeys[i]);
    mc_op("put(\"%s\", %p)", k, v);
    int rc = embc_strmap_put(sm, k, v, want ? &old : 0);
    key_drop(k);
    mc_check(rc == 0, "put returned %d", rc);
    if (want) { mc_check(old == (spres[i] ? sval[i] : 0), "put(\"%s\"): previous value %p wrong", skeys[i], old); }
    if (!spres[i]) { spres[i] = true; ++scount; }
    sval[i] = v;
}
static void sm_remove(int i, bool want) {
    void * old = (void *) 0x5555;
    char * k = key_copy(skeys[i]);
    mc_op("remove(\"%s\")", k);
    int rc = embc_strmap_remove(sm, k, want ? &old : 0);
    key_drop(k);
    mc_check((rc == 0) == spres[i], "remove(\"%s\") returned %d", skeys[i], rc);
    if (spres[i]) {
        if (want) { mc_check(old == sval[i], "remove(\"%s\"): value wrong", skeys[i]); }
        spres[i] = false; --scount;
    }
}
static void sm_begin(void) {
    start();
    scount = 0; memset(spres, 0, sizeof(spres));
    sm = embc_strmap_new();
    mc_check(sm != 0, "strmap_new returned null");
}
static void sm_end(void) {
    embc_strmap_free(sm);
    mc_check(mc_outstanding() == 0, "strmap_free leaked %ld blocks", mc_outstanding());
}
static void sm_ops(void) { /* few, colliding keys, deep */
    static const int sel[3][4] = {{0, 1, 2, 3}, {3, 4, 1, 2}, {5, 6, 7, 1}};
    const int * k = sel[mc_arg];
    sm_begin();
    for (int d = 0; d < mc_tier(5, 6); ++d) {
        int i = k[mc_choose(4)];
        if (mc_bool()) { sm_put(i, d ? (void *) (intptr_t) (d + 1) : 0, true); } else { sm_remove(i, true); }
        sm_verify("op", 8);
    }
    sm_end();
}
/* prefix followed by 13 characters, with the hash (djb2, as wide as embc_size_t) of the prefix itself */
static void same_hash(char * out, const char * prefix) {
    uint64_t h = 5381, f = 1, sum = 0;
    for (const char * c = prefix; *c; ++c) { h = h * 33 + *c; }
    for (int i = 0; i < 13; ++i) { sum += 48 * f; f *= 33; }
    uint64_t d = h - h * f - sum;
    size_t n = strlen(prefix);
    memcpy(out, prefix, n);
    out[n + 13] = 0;
    for (int i = 12; i >= 0; --i) { out[n + i] = 48 + d % 33; d /= 33; }
}
static void sm_prefix(void) {      /* keys that are prefixes of each other and have one hash */
    static char k[4][48];
    same_hash(k[0], ""); same_hash(k[1], k[0]); same_hash(k[2], "a"); same_hash(k[3], k[2]);
    for (int i = 0; i < 4; ++i) { skeys[13 + i] = k[i]; }
    int base = mc_choose(2);
    int s[3] = {base, 13 + 2 * base, 14 + 2 * base};
    sm_begin();
    for (int d = 0; d < mc_tier(5, 7); ++d) {
        int i = s[mc_choose(3)];
        if (mc_bool()) { sm_put(i, (void *) (intptr_t) (d + 1), true); } else { sm_remove(i, true); }
        sm_verify("op", 17);
    }
    sm_end();
}
static void sm_wide(void) { /* every key, from every fill level */
    sm_begin();
    int fill = mc_choose(NSK + 1);
    for (int i = 0; i < fill; ++i) { sm_put(i, (void *) (intptr_t) (40 + i), i & 1); }
    sm_verify("fill", NSK);
    for (int d = 0; d < mc_tier(2, 3); ++d) {
        int i = mc_choose(NSK);
        if (mc_bool()) { sm_put(i, (void *) (intptr_t) (d + 1), mc_bool()); } else { sm_remove(i, mc_bool()); }
        sm_verify("op", NSK);
    }
    sm_end();
}
static void sm_many(void) { /* every bin, several entries each */
    char k[16];
    sm_begin();
    int n = mc_choose(2) ? 200 : 70, len = 1 + mc_choose(6);
    for (int i = 0; i < n; ++i) {
        void * old = (void *) 1;
        memset(k, 'q', sizeof(k)); snprintf(k + len, sizeof(k) - len, "%d", i);
        mc_op("put(\"%s\")", k);
        mc_check(0 == embc_strmap_put(sm, k, (void *) (intptr_t) (i + 1), &old) && old == 0, "put(\"%s\")", k);
        mc_check(embc_strmap_length(sm) == i + 1, "length");
    }
    int m = 1 + mc_choose(4);
    for (int i = 0; i < n; i += m) {
        void * v = 0;
        snprintf(k + len, sizeof(k) - len, "%d", i);
        mc_op("remove(\"%s\")", k);
        mc_check(0 == embc_strmap_remove(sm, k, &v) && v == (void *) (intptr_t) (i + 1), "remove(\"%s\")", k);
        mc_check(0 != embc_strmap_remove(sm, k, &v), "remove twice(\"%s\")", k);
    }
    for (int i = 0; i < n; ++i) {
        void * v = 0;
        snprintf(k + len, sizeof(k) - len, "%d", i);
        int rc = embc_strmap_get(sm, k, &v);
        mc_check((rc == 0) == (i % m != 0), "get(\"%s\") returned %d", k, rc);
        if (rc == 0) { mc_check(v == (void *) (intptr_t) (i + 1), "get(\"%s\") value", k); }
    }
    mc_state(n * 100 + len * 10 + m);
    sm_end();
}

static void sm_long(void) { /* keys longer than 16 bits count */
    static const int lens[] = {4096, 32766, 32767, 32768, 40000, 65535, 65536, 70000, 131072};
    int len = lens[mc_choose(9)], at = mc_choose(3);
    char * k = malloc(len + 1), * q = malloc(len + 1);
    memset(k, 'k', len); k[len] = 0; memcpy(q, k, len + 1);
    q[at == 0 ? 0 : at == 1 ? len - 1 : len / 2] = 'm';
    sm_begin();
    mc_op("two keys of %d characters", len);
    void * v = (void *) 1;
    mc_check(0 == embc_strmap_put(sm, k, (void *) 5, &v) && v == 0, "put");
    mc_check(embc_strmap_get(sm, q, &v) != 0 && v == 0, "get of another key of the same length");
    mc_check(0 == embc_strmap_put(sm, q, (void *) 6, &v) && v == 0 && embc_strmap_length(sm) == 2, "put of the second key");
    mc_check(0 == embc_strmap_get(sm, k, &v) && v == (void *) 5 && 0 == embc_strmap_get(sm, q, &v) && v == (void *) 6, "get");
    k[len - 1] = 0; v = (void *) 1;
    mc_check(embc_strmap_get(sm, k, &v) != 0 && v == 0, "get of a prefix");
    k[len - 1] = 'k';
    mc_check(0 == embc_strmap_remove(sm, k, &v) && v == (void *) 5 && embc_strmap_length(sm) == 1, "remove");
    mc_check(0 == embc_strmap_get(sm, q, &v) && v == (void *) 6 && embc_strmap_get(sm, k, &v) != 0, "get after the removal");
    free(k); free(q);
    mc_state(len * 3 + at);
    embc_strmap_free(sm);
    mc_check(mc_outstanding() == 0, "strmap_free leaked %ld blocks", mc_outstanding());
}
static void sm_count(void) { /* more keys than 16 bits count */
    char k[16];
    sm_begin();
    int n = mc_tier(mc_choose(2) ? 32770 : 3000, mc_choose(2) ? 65540 : 32770);
    mc_op("%d keys", n);
    for (int i = 0; i < n; ++i) {
        snprintf(k, sizeof(k), "%d", i);
        if (embc_strmap_put(sm, k, (void *) (intptr_t) (i + 1), 0) || embc_strmap_length(sm) != i + 1) {
            mc_check(0, "length %lld after %d puts", (long long) embc_strmap_length(sm), i + 1);
        }
        if (!(i & 15)) { mc_tick(); }
    }
    mc_count(n);
    for (int i = 0; i < n + 3; i += 127) {
        void * v = (void *) 7;
        snprintf(k, sizeof(k), "%d", i);
        int rc = embc_strmap_remove(sm, k, &v);
        mc_check((rc == 0) == (i < n) && (i >= n || v == (void *) (intptr_t) (i + 1)), "remove of key %d of %d", i, n);
        mc_tick();
    }
    mc_check(embc_strmap_length(sm) == n - (n + 126) / 127, "length %lld after the removals", (long long) embc_strmap_length(sm));
    mc_state(n);
    embc_strmap_free(sm);
    mc_check(mc_outstanding() == 0, "strmap_free leaked %ld blocks", mc_outstanding());
}
static void sm_huge(void) { /* many keys; long keys that differ in the last place */
    static const int ns[] = {255, 256, 257, 300, 1000, 5000};
    static const int lens[] = {0, 3, 120, 253, 254, 255, 256, 1000};
    int n = ns[mc_choose(mc_tier(5, 6))], len = lens[mc_choose(8)];
    char * k = malloc(len + 8);
    sm_begin();
    mc_op("%d keys of length %d and more", n, len);
    for (int pass = 0; pass < 2; ++pass) {
        for (int i = 0; i < n; ++i) {
            void * old = (void *) 1;
            memset(k, 'x', len); snprintf(k + len, 8, "%d", i);
            mc_check(0 == embc_strmap_put(sm, k, (void *) (intptr_t) (i + 1 + pass), &old), "put of key %d", i);
            mc_check(old == (pass ? (void *) (intptr_t) (i + 1) : 0), "put of key %d with length %d: previous value wrong", i, len);
            mc_check(embc_strmap_length(sm) == (pass ? n : i + 1), "length %lld with %d keys", (long long) embc_strmap_length(sm), pass ? n : i + 1);
            if (!(i & 15)) { mc_tick(); }
        }
        mc_count(n);
    }
    for (int i = 0; i < n; i += 3) {
        void * old = (void *) 1;
        memset(k, 'x', len); snprintf(k + len, 8, "%d", i);
        mc_check(0 == embc_strmap_remove(sm, k, &old) && old == (void *) (intptr_t) (i + 2), "remove of key %d with length %d", i, len);
    }
    for (int i = 0; i < n + 2; ++i) {
        void * v = (void *) 1;
        bool p = i < n && i % 3;
        memset(k, 'x', len); snprintf(k + len, 8, "%d", i);
        mc_check((embc_strmap_get(sm, k, &v) == 0) == p && v == (p ? (void *) (intptr_t) (i + 2) : 0), "get of key %d of %d with length %d", i, n, len);
    }
    mc_check(embc_strmap_length(sm) == n - (n + 2) / 3, "length after removal");
    mc_state(n * 1000 + len);
    free(k);
    sm_end();
}
static void sm_churn(void) {
    sm_begin();
    int held = 1 + 4 * mc_choose(3), n = 70000, len = mc_choose(2) * 20; long base = 0; char k[40];
    mc_op("%d keys at a time", held);
    memset(k, 'z', sizeof(k));
    for (int i = 0; i < n; ++i) {
        void * old = (void *) 1, * v = 0;
        snprintf(k + len, 16, "%d", i);
        mc_check(0 == embc_strmap_put(sm, k, (void *) (intptr_t) (i + 1), &old) && old == 0, "put of key %d", i);
        if (i >= held) { snprintf(k + len, 16, "%d", i - held); mc_check(0 == embc_strmap_remove(sm, k, &v) && v == (void *) (intptr_t) (i - held + 1) && 0 != embc_strmap_get(sm, k, 0), "remove of key %d", i - held); }
        mc_check(embc_strmap_length(sm) == (i < held ? i + 1 : held), "length %lld after %d puts", (long long) embc_strmap_length(sm), i + 1);
        if (i == 1000) { base = mc_outstanding(); }
        if (!(i & 255)) { mc_tick(); }
    }
    mc_count(n);
    mc_check(mc_outstanding() <= base + 64, "%ld blocks in use after 70000 keys of which %d were present at a time, %ld after 1000", mc_outstanding(), held, base);
    mc_state(mc_mix(held, len));
    sm_end();
}
/* two keys as similar as possible: of equal length, one place differs, with equal (djb2) hashes or with hashes that agree in the low bits */
static const char (*similar_pair(int bits))[12] {
    static MC_KEEP char pair[33][2][12]; static MC_KEEP bool have[33];
    if (!have[bits]) {
        int n = bits > 24 ? 400000 : 60000;
        uint64_t * t = calloc(1 << 20, sizeof(uint64_t)); uint32_t x = 12345;
        for (int i = 1; i <= n && !have[bits]; ++i) {
            char k[12]; uint64_t h = 5381;
            uint32_t y = x = x * 1664525u + 1013904223u;
            k[0] = 'k'; for (int j = 1; j < 8; ++j) { k[j] = (char) ('a' + y % 13); y /= 13; } k[8] = 'e'; k[9] = 0;
            for (int j = 0; k[j]; ++j) { h = h * 33 + (uint8_t) k[j]; }
            uint64_t low = h & ((1ull << bits) - 1), at = (low * 0x9E3779B97F4A7C15ull) >> 44;
            for (; t[at]; at = (at + 1) & 0xfffff) {
                uint32_t z = (uint32_t) t[at]; char o[12]; uint64_t g = 5381;
                o[0] = 'k'; for (int j = 1; j < 8; ++j) { o[j] = (char) ('a' + z % 13); z /= 13; } o[8] = 'e'; o[9] = 0;
                for (int j = 0; o[j]; ++j) { g = g * 33 + (uint8_t) o[j]; }
                if ((g & ((1ull << bits) - 1)) == low && g != h) { memcpy(pair[bits][0], o, 12); memcpy(pair[bits][1], k, 12); have[bits] = true; break; }
            }
            if (!t[at]) { t[at] = (1ull << 32) | x; }
            if (!(i & 1023)) { mc_tick(); }
        }
        free(t);
    }
    return have[bits] ? pair[bits] : 0;
}
static void sm_pair(const char * a, const char * b) {
    const char * k[2] = {a, b};
    for (int order = 0; order < 2; ++order) {
        sm_begin();
        const char * p = k[order], * q = k[!order]; void * v = (void *) 9;
        mc_check(0 == embc_strmap_put(sm, p, (void *) 1, 0), "put");
        mc_check(0 != embc_strmap_get(sm, q, &v) && v == 0, "get(\"%s\") found \"%s\"", q, p);
        mc_check(0 != embc_strmap_remove(sm, q, &v) && embc_strmap_length(sm) == 1, "remove(\"%s\") removed \"%s\"", q, p);
        mc_check(0 == embc_strmap_put(sm, q, (void *) 2, &v) && v == 0 && embc_strmap_length(sm) == 2, "put(\"%s\") replaced \"%s\"", q, p);
        mc_check(0 == embc_strmap_get(sm, p, &v) && v == (void *) 1, "get(\"%s\") with \"%s\" present", p, q);
        mc_check(0 == embc_strmap_get(sm, q, &v) && v == (void *) 2, "get(\"%s\") with \"%s\" present", q, p);
        mc_check(0 == embc_strmap_put(sm, q, (void *) 3, &v) && v == (void *) 2 && 0 == embc_strmap_get(sm, p, &v) && v == (void *) 1, "the second put(\"%s\") with \"%s\" present", q, p);
        mc_check(0 == embc_strmap_remove(sm, q, &v) && v == (void *) 3 && 0 == embc_strmap_get(sm, p, &v) && v == (void *) 1 && embc_strmap_length(sm) == 1, "remove(\"%s\") with \"%s\" present", q, p);
        mc_count(10);
        sm_end();
    }
}
static void sm_similar(void) {
    static const int lens[] = {255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4097};
    int c = mc_choose(256 + 11 - 2), len = c < 254 ? c + 2 : lens[c - 254], fill = mc_choose(2);
    static char a[4100], b[4100];
    int inc = len > 600 ? 37 : 1;
    mc_op("keys of length %d", len);
    for (int at = 0; at < len; at += inc) {
        for (int i = 0; i < len; ++i) { a[i] = b[i] = (char) (fill ? 'x' : 'a' + i % 23); }
        a[len] = b[len] = 0;
        if (at + 1 < len) { a[at] = 'a'; a[at + 1] = 'b'; b[at] = 'b'; b[at + 1] = 'A'; } else { a[at] = '0'; b[at] = '@'; }
        sm_pair(a, b);
        mc_tick();
    }
    mc_state(mc_mix(len, fill));
}
static void sm_low_bits(void) {
    int bits = 6 + mc_choose(27);
    const char (*p)[12] = similar_pair(bits);
    mc_check(p != 0, "harness: no pair with %d equal bits", bits);
    mc_op("\"%s\" and \"%s\", hashes agree in the low %d bits", p[0], p[1], bits);
    sm_pair(p[0], p[1]);
    mc_state(bits);
}
/* ------------------------------------------------------------ two maps */
static struct embc_intmap_s * t_im[2]; static struct embc_intmap_iterator_s * t_it[2];
static struct embc_hashmap_s * t_hm[2]; static struct embc_strmap_s * t_sm[2];
static int t_kind;       /* 0: integer map, 1: iterators, 2: hash map, 3: string map */
static const char * const t_keys[] = {"a", "b", "Ab", "BA", "", "long key number one", "long key number two"};
static void t_get(int i, int key) {
    void * v = (void *) 77;
    two_put(t_kind == 3 ? embc_strmap_get(t_sm[i], t_keys[key], &v) != 0 : t_kind == 2 ? embc_hashmap_get(t_hm[i], (void *) (intptr_t) (key + 1), &v) : embc_intmap_get(t_im[i], key * 4, &v));
    two_put((intptr_t) v);
}
static void t_put(int i, int key, int val) {
    void * v = (void *) 77, * w = (void *) (intptr_t) (i * 1000 + val + 1);
    two_put(t_kind == 3 ? embc_strmap_put(t_sm[i], t_keys[key], w, &v) : t_kind == 2 ? embc_hashmap_put(t_hm[i], (void *) (intptr_t) (key + 1), w, &v) : embc_intmap_put(t_im[i], key * 4, w, &v));
    two_put((intptr_t) v);
}
static void t_del(int i, int key) {
    void * v = 0;
    int rc = t_kind == 3 ? embc_strmap_remove(t_sm[i], t_keys[key], &v) != 0 : t_kind == 2 ? 0 : embc_intmap_remove(t_im[i], key * 4, &v);
    two_put(rc);
    if (!rc) { two_put((intptr_t) v); }
}
static void t_next(int i) {
    embc_size_t k = -1; void * v = 0;
    int rc = embc_intmap_iterator_next(t_it[i], &k, &v);
    two_put(rc); if (!rc) { two_put(k); two_put((intptr_t) v); }
}
static void t_step(int i, int s, int k) {
    static const char ops[][8] = {"pPgrGp", "prgPRG", "pPgGpg", "gprgpG"};   /* p, P: put; g, G: get; r, R: remove */
    static const char its[][8] = {"pPinnf", "Pipnrn", "pinPnn", "pPirn."};   /* i, n, f: iterator */
    static const int other[] = {1, 2, 3, 6};
    if (k == 0) {
        start();
        t_it[i] = 0;
        if (t_kind == 3) { t_sm[i] = embc_strmap_new(); } else if (t_kind == 2) { t_hm[i] = embc_hashmap_new(hm_hash, hm_equiv); } else { t_im[i] = embc_intmap_new(); }
        if (s == 3 && t_kind < 3) { for (int n = 0; n < 20; ++n) { t_put(i, 100 + n, n); } }
        return;
    }
    if (k == 7) {
        if (t_it[i]) { embc_intmap_iterator_free(t_it[i]); t_it[i] = 0; }
        if (t_kind == 3) { embc_strmap_free(t_sm[i]); } else if (t_kind == 2) { embc_hashmap_free(t_hm[i]); } else { embc_intmap_free(t_im[i]); }
        return;
    }
    char c = t_kind == 1 ? its[s][k - 1] : ops[s][k - 1];
    int key = (c == 'P' || c == 'G' || c == 'R') ? other[s] : 0;
    switch (c) {
        case 'p': case 'P': t_put(i, key, k); break;
        case 'g': case 'G': t_get(i, key); break;
        case 'r': case 'R': t_del(i, key); break;
        case 'i': t_it[i] = embc_intmap_iterator_new(t_im[i]); break;
        case 'n': t_next(i); break;
        case 'f': embc_intmap_iterator_free(t_it[i]); t_it[i] = 0; break;
        default: break;
    }
    two_put(t_kind == 3 ? embc_strmap_length(t_sm[i]) : t_kind == 2 ? embc_hashmap_length(t_hm[i]) : embc_intmap_length(t_im[i]));
}
static void t_run(void) { static const struct two_s w = {4, 8, t_step}; t_kind = mc_arg; hm_kind = 0; two_run_(&w); }

static void im_null(void) {   /* a null map or iterator is refused */
    start();
    void * v = &v; embc_size_t k = 3; volatile int x = 0; void * volatile y = 0;
    int which = mc_choose(7);
    mc_op("null contract %d", which);
    struct embc_intmap_s * m = embc_intmap_new();
    embc_intmap_put(m, 3, &k, 0);
    struct embc_intmap_iterator_s * it = embc_intmap_iterator_new(m);
    bool f = true;
    switch (which) {
        case 0: f = MC_FATAL(x = embc_intmap_put(0, 3, &k, &v)); break;
        case 1: f = MC_FATAL(x = embc_intmap_get(0, 3, &v)); break;
        case 2: f = MC_FATAL(x = embc_intmap_remove(0, 3, &v)); break;
        case 3: f = MC_FATAL(y = embc_intmap_iterator_new(0)); break;
        case 4: f = MC_FATAL(x = embc_intmap_iterator_next(0, &k, &v)); break;
        case 5: f = MC_FATAL(x = embc_intmap_iterator_next(it, 0, &v)); break;
        case 6: f = MC_FATAL(x = embc_intmap_iterator_next(it, &k, 0)); break;
    }
    (void) x; (void) y;
    mc_check(f, "null argument %d was accepted", which);
    embc_intmap_iterator_free(0);
    embc_intmap_free(0);
    mc_check(embc_intmap_length(0) == 0, "length(null)");
    k = 9; v = 0;
    mc_check(0 == embc_intmap_iterator_next(it, &k, &v) && k == 3 && v == &k, "the refused call moved the iterator");
    mc_check(0 != embc_intmap_iterator_next(it, &k, &v), "one entry, iterated twice");
    embc_intmap_iterator_free(it);
    embc_intmap_free(m);
    mc_check(mc_outstanding() == 0, "leak");
    mc_state(which);
}
static const struct mc_scenario c16[] = {
    {"two-maps", t_run, 0, 0, 0},
    {"null", im_null},
    {"thousands", im_huge},
    {"churn", im_churn},
    {"small-colliding-and-extreme-keys", im_small},
    {"around-growth", im_growth},
    {"mixed-stride-8", im_mixed, 0, 0, 8},
    {"mixed-stride-32", im_mixed, 0, 0, 32},
    {"typed-wrapper", im_typed},
    {0}
};
static const struct mc_scenario c17[] = {
    {"null", im_null},
    {"two-maps", t_run, 0, 0, 1},
    {"two-iterators-last-bin", it_ops, 0, 0, 0},
    {"two-iterators-middle-bins", it_ops, 0, 0, 1},
    {"two-iterators-first-bins", it_ops, 0, 0, 2},
    {"three-iterators", it_three},
    {"large-maps", it_large},
    {0}
};
static const struct mc_scenario c18[] = {
    {"two-maps", t_run, 0, 0, 2},
    {"put-get", hm_run},
    {"many", hm_huge},
    {"more-than-16-bits-of-keys", hm_wide},
    {"arguments", hm_args},
    {0}
};
static void sm_null(void) {
    start();
    embc_strmap_free(0);
    mc_op("free(null), length(null)");
    mc_check(embc_strmap_length(0) == 0, "length(null)");
    mc_check(mc_outstanding() == 0, "leak");
    mc_state(1);
}
static const struct mc_scenario c19[] = {
    {"null", sm_null},
    {"two-maps", t_run, 0, 0, 3},
    {"prefixes-with-one-hash", sm_prefix},
    {"colliding-0", sm_ops, 0, 0, 0},
    {"colliding-1", sm_ops, 0, 0, 1},
    {"colliding-2", sm_ops, 0, 0, 2},
    {"wide", sm_wide},
    {"many", sm_many},
    {"more-than-16-bits-of-keys", sm_count},
    {"keys-of-more-than-16-bits", sm_long},
    {"similar", sm_similar},
    {"similar-hashes", sm_low_bits},
    {"many-and-long", sm_huge},
    {"churn", sm_churn},
    {0}
};
const struct mc_property mc_properties[] = {
    {"C16", c16},
    {"C17", c17},
    {"C18", c18},
    {"C19", c19},
    {0}
};
