/* C15: intrusive lists against ideal sequences. */
#include "mc.h"
#include "embc/collections/list.h"
#include "embc/cdef.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

#define NI 4
struct ent_s { int tag; struct embc_list_s item; int tag2; };
struct model_s { int n[2]; int v[2][NI]; };

static struct embc_list_s L[2];
static struct ent_s E[NI];
static struct model_s M;
static int dirty[NI]; /* unlinked without reinitialization is impossible by the public API */

static int id_of(struct embc_list_s * p) {
    if (!p) { return -1; }
    struct ent_s * e = embc_list_entry(p, struct ent_s, item);
    for (int i = 0; i < NI; ++i) { if (e == &E[i]) { return i; } }
    return -2;
}
static void m_remove(int i) {
    for (int l = 0; l < 2; ++l) {
        for (int k = 0; k < M.n[l]; ++k) {
            if (M.v[l][k] == i) {
                memmove(&M.v[l][k], &M.v[l][k + 1], sizeof(int) * (M.n[l] - k - 1));
                --M.n[l];
                return;
            }
        }
    }
}
static void m_insert(int l, int at, int i) {
    memmove(&M.v[l][at + 1], &M.v[l][at], sizeof(int) * (M.n[l] - at));
    M.v[l][at] = i;
    ++M.n[l];
}
static int m_find(int i, int * l) {
    for (*l = 0; *l < 2; ++*l) {
        for (int k = 0; k < M.n[*l]; ++k) { if (M.v[*l][k] == i) { return k; } }
    }
    *l = -1;
    return -1;
}

static void compare(const char * what) {
    struct embc_list_s * it;
    uint64_t h = 1;
    for (int l = 0; l < 2; ++l) {
        int n = M.n[l], k;
        mc_check(embc_list_length(&L[l]) == n, "%s: length of list %d is %d, expected %d", what, l, (int) embc_list_length(&L[l]), n);
        mc_check(embc_list_is_empty(&L[l]) == (n == 0), "%s: is_empty of list %d wrong", what, l);
        mc_check(id_of(embc_list_peek_head(&L[l])) == (n ? M.v[l][0] : -1), "%s: peek_head of list %d wrong", what, l);
        mc_check(id_of(embc_list_peek_tail(&L[l])) == (n ? M.v[l][n - 1] : -1), "%s: peek_tail of list %d wrong", what, l);
        k = 0;
        embc_list_foreach(&L[l], it) {
            mc_check(k < n && id_of(it) == M.v[l][k], "%s: forward iteration of list %d differs at %d", what, l, k);
            ++k;
        }
        mc_check(k == n, "%s: forward iteration of list %d ends early", what, l);
        k = 0;
        embc_list_foreach_unsafe(&L[l], it) {
            mc_check(k < n && id_of(it) == M.v[l][k], "%s: unsafe iteration of list %d differs at %d", what, l, k);
            ++k;
        }
        mc_check(k == n, "%s: unsafe iteration of list %d ends early", what, l);
        k = 0;
        embc_list_foreach_reverse(&L[l], it) {
            mc_check(k < n && id_of(it) == M.v[l][n - 1 - k], "%s: reverse iteration of list %d differs at %d", what, l, k);
            ++k;
        }
        mc_check(k == n, "%s: reverse iteration of list %d ends early", what, l);
        k = 0;
        embc_list_foreach_reverse_unsafe(&L[l], it) {
            mc_check(k < n && id_of(it) == M.v[l][n - 1 - k], "%s: unsafe reverse iteration of list %d differs at %d", what, l, k);
            ++k;
        }
        mc_check(k == n, "%s: unsafe reverse iteration of list %d ends early", what, l);
        for (k = 0; k <= n + 1; ++k) {
            mc_check(id_of(embc_list_index(&L[l], k)) == (k < n ? M.v[l][k] : -1), "%s: index %d of list %d wrong", what, k, l);
        }
        mc_check(embc_list_index(&L[l], -1) == 0, "%s: index -1 of list %d not null", what, l);
        for (int i = 0; i < NI; ++i) {
            int where, at = m_find(i, &where);
            embc_size_t expect = (where == l) ? at : -1;
            mc_check(embc_list_index_of(&L[l], &E[i].item) == expect, "%s: index_of item %d in list %d wrong", what, i, l);
            mc_check(embc_list_contains(&L[l], &E[i].item) == (where == l), "%s: contains item %d in list %d wrong", what, i, l);
        }
        h = mc_mix(h, n);
        for (k = 0; k < n; ++k) { h = mc_mix(h, M.v[l][k] + 10); }
    }
    for (int i = 0; i < NI; ++i) {
        int where;
        mc_check(E[i].tag == i && E[i].tag2 == i * 7, "%s: container of item %d overwritten", what, i);
        m_find(i, &where);
        if (where < 0 && !dirty[i]) {
            mc_check(embc_list_is_empty(&E[i].item), "%s: removed item %d is still linked", what, i);
        }
    }
    mc_state(h);
}

static void init(void) {
    memset(&M, 0, sizeof(M));
    memset(dirty, 0, sizeof(dirty));
    memset(L, 0x5a, sizeof(L));
    memset(E, 0x5a, sizeof(E));
    embc_list_initialize(&L[0]);
    embc_list_initialize(&L[1]);
    for (int i = 0; i < NI; ++i) { E[i].tag = i; E[i].tag2 = i * 7; embc_list_initialize(&E[i].item); }
    compare("initialize");
}

static int items;

static void step(void) {
    char what[80];
    int l, i, j, at;
    switch (mc_choose(10)) {
        case 0:
            l = mc_choose(2); i = mc_choose(items);
            snprintf(what, sizeof(what), "add_tail(L%d, item%d)", l, i);
            mc_op("%s", what);
            embc_list_add_tail(&L[l], &E[i].item);
            m_remove(i); m_insert(l, M.n[l], i);
            break;
        case 1:
            l = mc_choose(2); i = mc_choose(items);
            snprintf(what, sizeof(what), "add_head(L%d, item%d)", l, i);
            mc_op("%s", what);
            embc_list_add_head(&L[l], &E[i].item);
            m_remove(i); m_insert(l, 0, i);
            break;
        case 2:
            i = mc_choose(items);
            snprintf(what, sizeof(what), "remove(item%d)", i);
            mc_op("%s", what);
            embc_list_remove(&E[i].item);
            m_remove(i);
            break;
        case 3:
        case 4: { /* insertion relative to a linked item */
            i = mc_choose(items); j = mc_choose(items);
            if (i == j) { mc_prune(); }
            at = m_find(i, &l);
            if (l < 0) { mc_prune(); }
            int before = mc_bool();
            snprintf(what, sizeof(what), "insert_%s(item%d, item%d)", before ? "before" : "after", i, j);
            mc_op("%s", what);
            if (before) { embc_list_insert_before(&E[i].item, &E[j].item); }
            else { embc_list_insert_after(&E[i].item, &E[j].item); }
            m_remove(j);
            at = m_find(i, &l);
            m_insert(l, before ? at : at + 1, j);
            break;
        }
        case 5: {
            l = mc_choose(2);
            snprintf(what, sizeof(what), "remove_head(L%d)", l);
            mc_op("%s", what);
            int r = id_of(embc_list_remove_head(&L[l]));
            mc_check(r == (M.n[l] ? M.v[l][0] : -1), "%s returned %d", what, r);
            if (r >= 0) { m_remove(r); }
            break;
        }
        case 6: {
            l = mc_choose(2);
            snprintf(what, sizeof(what), "remove_tail(L%d)", l);
            mc_op("%s", what);
            int r = id_of(embc_list_remove_tail(&L[l]));
            mc_check(r == (M.n[l] ? M.v[l][M.n[l] - 1] : -1), "%s returned %d", what, r);
            if (r >= 0) { m_remove(r); }
            break;
        }
        case 7:
            l = mc_choose(2);
            snprintf(what, sizeof(what), "append(L%d, L%d)", l, 1 - l);
            mc_op("%s", what);
            embc_list_append(&L[l], &L[1 - l]);
            memcpy(&M.v[l][M.n[l]], M.v[1 - l], sizeof(int) * M.n[1 - l]);
            M.n[l] += M.n[1 - l];
            M.n[1 - l] = 0;
            break;
        case 8: case 9: { /* iterate, removing or moving the current item by choice */
            l = mc_choose(2);
            int rev = mc_bool();
            if (M.n[l] == 0) { mc_prune(); }
            snprintf(what, sizeof(what), "iterate %s L%d, changing the current item", rev ? "reverse" : "forward", l);
            mc_op("%s", what);
            int order[NI], n = M.n[l], k = 0;
            for (int q = 0; q < n; ++q) { order[q] = M.v[l][rev ? n - 1 - q : q]; }
            struct embc_list_s * it;
            #define BODY { \
                mc_check(k < n && id_of(it) == order[k], "%s: visit %d is item %d", what, k, id_of(it)); \
                int a = mc_choose(3); \
                if (a == 1) { mc_note("  remove item%d", order[k]); embc_list_remove(it); m_remove(order[k]); } \
                if (a == 2) { mc_note("  move item%d to the other list", order[k]); embc_list_add_tail(&L[1 - l], it); m_remove(order[k]); m_insert(1 - l, M.n[1 - l], order[k]); } \
                ++k; }
            if (rev) { embc_list_foreach_reverse(&L[l], it) BODY } else { embc_list_foreach(&L[l], it) BODY }
            mc_check(k == n, "%s: visited %d of %d items", what, k, n);
            break;
        }
    }
    compare(what);
}

static void run_ops(void) {
    items = mc_arg;
    init();
    int depth = mc_tier(items == 2 ? 4 : (items == 3 ? 4 : 4), items == 2 ? 7 : (items == 3 ? 6 : 5));
    for (int d = 0; d < depth; ++d) { step(); }
}

/* from every arrangement of the items over the two lists, a few steps */
static void run_arranged(void) {
    items = NI;
    init();
    for (int i = 0; i < NI; ++i) {
        int l = mc_choose(3);
        if (l == 2) { continue; }
        int at = mc_choose(M.n[l] + 1);
        if (at == M.n[l]) { embc_list_add_tail(&L[l], &E[i].item); }
        else { embc_list_insert_before(&E[M.v[l][at]].item, &E[i].item); }
        m_insert(l, at, i);
    }
    compare("arrange");
    for (int d = 0; d < mc_tier(1, 2); ++d) { step(); }
}

/* long lists: lengths and indices around the widths of integers */
static void run_long(void) {
    static const int ns[] = {5, 8, 127, 128, 255, 256, 257, 300, 32768, 65535, 65536, 70000};
    int c = mc_choose(12), n = ns[c], build = mc_choose(4), drain = mc_choose(3);
    mc_op("list of %d items, build %d, drain %d", n, build, drain);
    struct ent_s * e = malloc(n * sizeof(*e));
    struct embc_list_s a, b, * it;
    embc_list_initialize(&a); embc_list_initialize(&b);
    for (int i = 0; i < n; ++i) { e[i].tag = i; e[i].tag2 = -i; embc_list_initialize(&e[i].item); }
    if (build == 0) { for (int i = 0; i < n; ++i) { embc_list_add_tail(&a, &e[i].item); } }
    else if (build == 1) { for (int i = n - 1; i >= 0; --i) { embc_list_add_head(&a, &e[i].item); } }
    else if (build == 2) { embc_list_add_tail(&a, &e[0].item); for (int i = 1; i < n; ++i) { embc_list_insert_after(&e[i - 1].item, &e[i].item); } }
    else {
        for (int i = 0; i < n / 2; ++i) { embc_list_add_tail(&a, &e[i].item); }
        for (int i = n / 2; i < n; ++i) { embc_list_add_tail(&b, &e[i].item); }
        embc_list_append(&a, &b);
        mc_check(embc_list_is_empty(&b), "the appended list is not empty");
    }
    mc_count(n);
    mc_check(embc_list_length(&a) == n, "length %d of %d items", (int) embc_list_length(&a), n);
    int k = 0;
    embc_list_foreach(&a, it) { mc_check(k < n && it == &e[k].item, "item %d of %d is wrong", k, n); ++k; }
    mc_check(k == n, "forward iteration visits %d of %d", k, n);
    k = n;
    embc_list_foreach_reverse(&a, it) { mc_check(k > 0 && it == &e[k - 1].item, "item %d of %d from the tail is wrong", k, n); --k; }
    mc_check(k == 0, "reverse iteration misses %d of %d", k, n);
    for (int q = 0; q < n; q += (n > 1000 && q > 10 && q < n - 10) ? n / 11 : 1) {
        mc_check(embc_list_index(&a, q) == &e[q].item, "index %d of %d", q, n);
        mc_check(embc_list_index_of(&a, &e[q].item) == q, "index_of item %d of %d is %d", q, n, (int) embc_list_index_of(&a, &e[q].item));
        mc_tick();
    }
    for (int q = 0; q < 12; ++q) {
        if (ns[q] < n) {
            mc_check(embc_list_index(&a, ns[q]) == &e[ns[q]].item, "index %d of %d", ns[q], n);
            mc_check(embc_list_index_of(&a, &e[ns[q]].item) == ns[q], "index_of item %d of %d is %d", ns[q], n, (int) embc_list_index_of(&a, &e[ns[q]].item));
        }
    }
    mc_check(embc_list_index(&a, n) == 0 && embc_list_index(&a, n + 65536) == 0, "index beyond the end of %d items", n);
    mc_check(embc_list_index_of(&b, &e[n - 1].item) == -1 && !embc_list_contains(&b, &e[0].item), "an empty list contains items");
    /* take every item out again */
    int lo = 0, hi = n;
    while (lo < hi) {
        bool head = drain == 0 || (drain == 2 && ((lo ^ hi) & 1));
        struct embc_list_s * r = head ? embc_list_remove_head(&a) : embc_list_remove_tail(&a);
        int want = head ? lo++ : --hi;
        mc_check(r == &e[want].item, "remove_%s gives the wrong item with %d left", head ? "head" : "tail", hi - lo + 1);
        mc_check(embc_list_is_empty(r), "a removed item is still linked");
        mc_check(embc_list_is_empty(&a) == (lo == hi), "is_empty wrong with %d left", hi - lo);
    }
    mc_count(n);
    for (int i = 0; i < n; ++i) { mc_check(e[i].tag == i && e[i].tag2 == -i, "item %d overwritten", i); }
    mc_state((c * 4 + build) * 3 + drain + 1000000);
    free(e);
}
static const struct mc_scenario scn[] = {
    {"long-lists", run_long},
    {"ops-2-items", run_ops, 0, 0, 2},
    {"ops-3-items", run_ops, 0, 0, 3},
    {"ops-4-items", run_ops, 0, 0, 4, 1},
    {"arranged-4-items", run_arranged, 0, 0},
    {0}
};
const struct mc_property mc_properties[] = {
    {"C15", scn},
    {0}
};
