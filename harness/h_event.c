/* C20: event manager.  C21: event callbacks that schedule and cancel. */
#include "mc.h"
#include "embc/event_manager.h"
#include "embc/time.h"
#include <string.h>

#define MAXE 32
static struct ev_s { int32_t id; int64_t ts; int seq, cb, pre; } P[MAXE];
static int np, seq, tokens[MAXE];
static int32_t ids[MAXE]; static int nids;
static int64_t now;
static int in_process, ran, actions, sched_cb;
static struct embc_evm_s * evm;

static const int64_t times[] = {1, 2, 3, 4, 5};
static void cb0(void * u, int32_t id);
static void cb1(void * u, int32_t id);

static int64_t earliest(void) {
    int64_t t = EMBC_TIME_MIN;
    for (int i = 0; i < np; ++i) { if (t == EMBC_TIME_MIN || P[i].ts < t) { t = P[i].ts; } }
    return t;
}
static void queries(int64_t at) {
    int64_t e = earliest();
    mc_check(embc_evm_time_next(evm) == e, "time_next is %lld, expected %lld", (long long) embc_evm_time_next(evm), (long long) e);
    int64_t want = np == 0 ? -1 : e <= at ? 0 : e - at;
    mc_check(embc_evm_interval_next(evm, at) == want, "interval_next(%lld) is %lld, expected %lld", (long long) at, (long long) embc_evm_interval_next(evm, at), (long long) want);
}
static void do_schedule(int64_t ts) {
    int c = sched_cb = !sched_cb;
    mc_op("%sschedule at %lld (callback %d)", in_process ? "  " : "", (long long) ts, c);
    int32_t id = embc_evm_schedule(evm, ts, c ? cb1 : cb0, &tokens[seq]);
    if (ts <= 0) { mc_check(id == 0, "schedule at %lld returned %d, documented 0", (long long) ts, id); return; }
    mc_check(id > 0, "schedule returned id %d", id);
    for (int i = 0; i < np; ++i) { mc_check(P[i].id != id, "id %d is already pending", id); }
    P[np++] = (struct ev_s) {id, ts, seq, c, 0};
    ++seq;
    int known = 0;
    for (int i = 0; i < nids; ++i) { known |= ids[i] == id; }
    if (!known) { ids[nids++] = id; }
}
static void do_cancel(int32_t id) {
    mc_op("%scancel %d", in_process ? "  " : "", id);
    mc_check(0 == embc_evm_cancel(evm, id), "cancel returned an error");
    for (int i = 0; i < np; ++i) {
        if (P[i].id == id) { P[i] = P[np - 1]; --np; break; }
    }
}
static void cancel_choice(void) {
    int c = mc_choose(nids + 2);
    do_cancel(c < nids ? ids[c] : c == nids ? 0 : 999);
}
static void callback(int c, void * u, int32_t id) {
    mc_note("  callback of id %d", id);
    mc_check(in_process, "callback outside of process");
    int i = 0;
    while (i < np && P[i].id != id) { ++i; }
    mc_check(i < np, "callback for id %d, which is not pending (cancelled or already run)", id);
    struct ev_s e = P[i];
    mc_check(u == &tokens[e.seq], "callback of id %d with other user data", id);
    mc_check(c == e.cb, "the callback of another event was called");
    mc_check(e.ts <= now, "event due at %lld ran at %lld", (long long) e.ts, (long long) now);
    for (int k = 0; k < np; ++k) {
        mc_check(k == i || !P[k].pre || P[k].ts > e.ts || (P[k].ts == e.ts && P[k].seq > e.seq), "event due at %lld (number %d) ran before the one due at %lld (number %d)",
            (long long) e.ts, e.seq, (long long) P[k].ts, P[k].seq);
    }
    P[i] = P[np - 1]; --np; ++ran;
    if (!actions) { return; }
    queries(now);
    for (int k = 0; k < 2 && mc_dev_left(); ++k) {
        int n = 1 + 4 + 1;
        int a = mc_dev(n);
        if (a == 0) { break; }
        if (a <= 4) { do_schedule(a == 1 ? 1 : a == 2 ? now : a == 3 ? now + 1 : now - 1); }
        else { cancel_choice(); }
        queries(now);
    }
}
static void cb0(void * u, int32_t id) { callback(0, u, id); }
static void cb1(void * u, int32_t id) { callback(1, u, id); }

static void do_process(int64_t at) {
    if (at > now) { now = at; }
    mc_op("process at %lld", (long long) now);
    for (int i = 0; i < np; ++i) { P[i].pre = 1; }
    ran = 0; in_process = 1;
    int32_t n = embc_evm_process(evm, now);
    in_process = 0;
    mc_check(n == ran, "process returned %d after running %d events", n, ran);
    for (int i = 0; i < np; ++i) { mc_check(!P[i].pre || P[i].ts > now, "event due at %lld did not run at %lld", (long long) P[i].ts, (long long) now); }
}
static void settle(void) { /* anything due now runs after finitely many process calls */
    for (int k = 0; k < 10; ++k) {
        int due = 0;
        for (int i = 0; i < np; ++i) { due |= P[i].ts <= now; }
        if (!due) { return; }
        do_process(now);
    }
    mc_fail("events that are due never run");
}
static uint64_t st(void) {
    uint64_t h = now;
    for (int i = 0; i < np; ++i) { h += mc_mix(mc_mix(P[i].ts, P[i].id), P[i].seq); }
    return h;
}
static void init(void) {
    np = seq = nids = in_process = sched_cb = 0; now = 0;
    evm = embc_evm_allocate();
    mc_check(evm != 0, "allocate failed");
    queries(1);
}
static void finish(void) {
    embc_evm_free(evm);
    mc_check(mc_outstanding() == 0, "freeing the manager leaked %ld blocks", mc_outstanding());
}
static void seq_run(void) {
    init();
    actions = 0;
    int depth = mc_tier(7, 8);
    for (int d = 0; d < depth; ++d) {
        int c = mc_choose(5 + 3 + nids + 1);
        if (c < 5) { do_schedule(c == 4 ? 0 : times[c]); }
        else if (c < 8) { do_process(now + (c - 5)); }
        else if (c < 8 + nids) { do_cancel(ids[c - 8]); }
        else { do_cancel(nids ? 999 : 0); }
        queries(now); queries(3);
        mc_state(st());
    }
    do_process(4);
    do_process(100);
    mc_check(np == 0, "an event never ran");
    queries(3);
}
static void seq_scn(void) { seq_run(); finish(); }
/* values of large magnitude */
static void wide_run(void) {
    static const int64_t w[] = {1, 0x7fffffffLL, 0x80000000LL, 0x100000000LL, 0x100000001LL, (5LL << 40), 0x7fffffffffffffffLL, -1, INT64_MIN};
    init(); actions = 0;
    int n = mc_tier(3, 4);
    for (int i = 0; i < n; ++i) { do_schedule(w[mc_choose(9)]); queries(0); queries(0x80000000LL); }
    do_process(w[mc_choose(7)]);
    queries(now);
    do_process(w[mc_choose(7)]);
    do_process(0x7fffffffffffffffLL);
    mc_check(np == 0, "an event never ran");
    finish();
}
/* many events: an array of all events says what must run next */
static struct big_s { int64_t ts; int32_t id; int state; } B[1100]; /* 0 not scheduled, 1 pending, 2 cancelled, 3 run */
static int bn, bran; static int64_t bnow, blast; static int blast_i;
static void big_cb(void * u, int32_t id) {
    struct big_s * b = u;
    int i = (int) (b - B);
    mc_check(i >= 0 && i < bn && b->state == 1, "callback of event %d, which is not pending", i);
    mc_check(id == b->id, "callback of event %d with id %d, scheduled with id %d", i, id, b->id);
    mc_check(b->ts <= bnow, "event due at %lld ran at %lld", (long long) b->ts, (long long) bnow);
    mc_check(b->ts > blast || (b->ts == blast && i > blast_i), "event %d due at %lld ran after event %d due at %lld", i, (long long) b->ts, blast_i, (long long) blast);
    blast = b->ts; blast_i = i;
    b->state = 3; ++bran;
}
static void many_run(void) {
    static const int ns[] = {9, 100, 255, 256, 257, 300, 1000};
    int n = bn = ns[mc_choose(7)], kind = mc_choose(5), cancel = mc_choose(4), reuse = mc_choose(2);
    evm = embc_evm_allocate();
    memset(B, 0, sizeof(B));
    mc_op("%d events, times %d, cancel %d, second round %d", n, kind, cancel, reuse);
    for (int round = 0; round <= reuse; ++round) {
        int64_t t0 = round * 10000;
        blast = 0; blast_i = -1;
        for (int i = 0; i < n; ++i) {
            B[i].ts = t0 + (kind == 0 ? 1 + i : kind == 1 ? n - i : kind == 2 ? 5 : kind == 3 ? 1 + (i * 7) % 11 : 1 + (i * 37) % n);
            B[i].state = 1;
            B[i].id = embc_evm_schedule(evm, B[i].ts, big_cb, &B[i]);
            mc_check(B[i].id > 0, "schedule of event %d returned %d", i, B[i].id);
            for (int k = 0; k < i; ++k) { mc_check(B[k].state != 1 || B[k].id != B[i].id, "events %d and %d have the same id %d", k, i, B[i].id); }
        }
        mc_count(n);
        for (int i = 0; i < n; ++i) {
            if (cancel == 0 || (cancel == 1 && i % 3) || (cancel == 2 && i < n - 2)) { continue; }
            if (cancel == 3 && i > 5) { continue; }
            mc_check(0 == embc_evm_cancel(evm, B[i].id), "cancel");
            B[i].state = 2;
        }
        int64_t last = t0 + n + 11;
        for (bnow = t0; bnow <= last; bnow += (last - t0 + 4) / 5) {
            int due = 0; int64_t first = 0;
            for (int i = 0; i < n; ++i) { if (B[i].state == 1) { due += B[i].ts <= bnow; if (!first || B[i].ts < first) { first = B[i].ts; } } }
            mc_check(embc_evm_time_next(evm) == (first ? first : EMBC_TIME_MIN), "time_next is %lld, expected %lld", (long long) embc_evm_time_next(evm), (long long) first);
            bran = 0;
            int r = embc_evm_process(evm, bnow);
            mc_check(r == due && bran == due, "process at %lld returned %d and ran %d of %d due events", (long long) bnow, r, bran, due);
        }
        bnow = last;
        embc_evm_process(evm, bnow);
        for (int i = 0; i < n; ++i) { mc_check(B[i].state != 1, "event %d never ran", i); }
        mc_check(embc_evm_interval_next(evm, 0) == -1, "interval_next with no event pending");
    }
    mc_state(mc_mix(n, (kind * 4 + cancel) * 2 + reuse));
    finish();
}
/* many more events than are ever pending together: run, cancelled or both; memory must not grow with their number */
static void churn_run(void) {
    int held = 1 + mc_choose(4), mode = mc_choose(4); long base = 0;
    evm = embc_evm_allocate(); memset(B, 0, sizeof(B)); bn = held;
    mc_op("%d events pending at a time, mode %d", held, mode);
    for (int r = 0; r < 70000 / held; ++r) {
        blast = 0; blast_i = -1; bran = 0;
        int cancelled = 0;
        for (int i = 0; i < held; ++i) {
            B[i].ts = 1 + (int64_t) r * 10 + (i * 3 + r) % held; B[i].state = 1;
            B[i].id = embc_evm_schedule(evm, B[i].ts, big_cb, &B[i]);
            mc_check(B[i].id > 0, "schedule %d of round %d returned %d", i, r, B[i].id);
            for (int k = 0; k < i; ++k) { mc_check(B[k].id != B[i].id, "events %d and %d of round %d have the same id %d", k, i, r, B[i].id); }
        }
        for (int i = 0; i < held; ++i) { if (mode == 1 || (mode == 2 && (i + r) % 2) || (mode == 3 && r % 100)) { embc_evm_cancel(evm, B[i].id); B[i].state = 2; ++cancelled; } }
        bnow = 9 + (int64_t) r * 10;
        int n = embc_evm_process(evm, bnow);
        mc_check(n == held - cancelled && bran == n, "round %d: process returned %d and ran %d of %d events", r, n, bran, held - cancelled);
        mc_check(embc_evm_time_next(evm) == EMBC_TIME_MIN, "round %d: an event is still pending", r);
        if (r == 100) { base = mc_outstanding(); }
    }
    mc_count(70000);
    mc_check(mc_outstanding() <= base + 64, "%ld blocks are in use after 70000 events of which %d were pending at a time, %ld after %d", mc_outstanding(), held, base, 100 * held);
    mc_state(held * 4 + mode);
    finish();
}
/* more events at one time than 16 bits count; scheduled with falling timestamps, so that each goes to the head */
static int64_t hu_last; static int hu_ran; static bool hu_order, hu_uniq; static uint8_t * hu_seen; static int hu_n;
static void hu_cb(void * u, int32_t id) {
    int64_t ts = (int64_t) (intptr_t) u;
    if (ts <= hu_last) { hu_order = false; }
    hu_last = ts; ++hu_ran;
    if (id > 0 && id <= hu_n) { if (hu_seen[id]) { hu_uniq = false; } hu_seen[id] = 1; }
    mc_tick();
}
static int id_cmp(const void * a, const void * b) { int32_t x = *(const int32_t *) a, y = *(const int32_t *) b; return x < y ? -1 : x > y; }
static void huge_run(void) {
    static const int ns[] = {5000, 32767, 32769, 65537, 70000};
    int n = ns[mc_choose(5)], drop = mc_choose(2);
    int32_t * id = malloc(n * sizeof(*id));
    evm = embc_evm_allocate();
    hu_last = 0; hu_ran = 0; hu_order = hu_uniq = true; hu_n = n; hu_seen = calloc(1, n + 1);
    mc_op("%d events", n);
    for (int i = 0; i < n; ++i) {
        id[i] = embc_evm_schedule(evm, n - i, hu_cb, (void *) (intptr_t) (n - i));
        if (id[i] <= 0) { mc_check(0, "schedule of event %d returned %d", i, id[i]); }
        if (!(i & 63)) { mc_tick(); }
    }
    mc_count(n);
    int left = n;
    if (drop) { /* the latest scheduled is the first to run */
        for (int i = n - 1; i > n - 100; i -= 2) { mc_check(0 == embc_evm_cancel(evm, id[i]), "cancel"); --left; }
    }
    mc_check(embc_evm_time_next(evm) == (drop ? 2 : 1), "time_next is %lld", (long long) embc_evm_time_next(evm));
    int r = embc_evm_process(evm, n);
    mc_check(r == left && hu_ran == left, "process returned %d and ran %d of %d events", r, hu_ran, left);
    mc_check(hu_order, "events ran out of order");
    mc_check(hu_uniq, "two pending events had one id");
    qsort(id, n, sizeof(*id), id_cmp);
    for (int i = 1; i < n; ++i) { if (id[i] == id[i - 1]) { mc_check(0, "two of %d pending events have the id %d", n, id[i]); } }
    mc_check(embc_evm_interval_next(evm, 0) == -1, "an event is still pending");
    free(id); free(hu_seen);
    mc_state(n * 2 + drop);
    finish();
}
/* two managers do not share events */
static int two_ran[2];
static void two_cb(void * u, int32_t id) { (void) id; ++two_ran[(int) (intptr_t) u]; }
static void two_run(void) {
    struct embc_evm_s * m[2] = {embc_evm_allocate(), embc_evm_allocate()};
    int pend[2] = {0, 0}; int32_t id[2] = {0, 0};
    for (int d = 0; d < mc_tier(6, 7); ++d) {
        int q = mc_choose(2);
        two_ran[0] = two_ran[1] = 0;
        switch (mc_choose(3)) {
            case 0: mc_op("manager %d schedule", q); id[q] = embc_evm_schedule(m[q], 5, two_cb, (void *) (intptr_t) q); mc_check(id[q] > 0, "schedule"); ++pend[q]; break;
            case 1: if (!id[q]) { mc_prune(); } mc_op("manager %d cancel its last event", q); embc_evm_cancel(m[q], id[q]); if (pend[q]) { --pend[q]; } id[q] = 0; break;
            default:
                mc_op("manager %d process", q);
                mc_check(embc_evm_process(m[q], 5) == pend[q] && two_ran[q] == pend[q] && two_ran[1 - q] == 0, "manager %d ran %d and %d events, %d expected", q, two_ran[0], two_ran[1], pend[q]);
                pend[q] = 0; id[q] = 0;
                break;
        }
        for (int k = 0; k < 2; ++k) { mc_check(embc_evm_interval_next(m[k], 0) == (pend[k] ? 5 : -1), "manager %d has %d events", k, pend[k]); }
        mc_state(pend[0] * 16 + pend[1]);
    }
    embc_evm_free(m[0]); embc_evm_free(m[1]);
    mc_check(mc_outstanding() == 0, "leak");
}
static const struct mc_scenario c20[] = {
    {"many events", many_run, 0, 0, 0, 0},
    {"churn", churn_run, 0, 0, 0, 0},
    {"more than 16 bits of events", huge_run, 0, 0, 0, 0},
    {"two managers", two_run, 0, 0, 0, 0},
    {"sequences", seq_scn, 0, 0, 0, 0},
    {"wide timestamps", wide_run, 0, 0, 0, 0},
    {0}
};
static void act_run(void) {
    init();
    actions = 1;
    int n = mc_tier(3, 4);
    int m = 1 + mc_choose(n);
    for (int i = 0; i < m; ++i) { do_schedule(times[mc_choose(3)]); }
    int stop = mc_choose(3);            /* free with events still pending */
    do_process(mc_choose(2) + 2);
    queries(now);
    mc_state(st());
    if (stop < 1) { finish(); return; }
    settle(); do_process(now + 1);
    if (stop < 2) { finish(); return; }
    settle();
    mc_state(st());
    for (int k = 0; k < 4; ++k) { do_process(now + 3); settle(); }
    mc_check(np == 0, "an event never ran");
    queries(now);
    finish();
}
static void oom_run(void) {
    init(); actions = 0;
    int n = mc_choose(4);
    for (int i = 0; i < 4; ++i) {
        if (i == n) {
            mc_alloc_fail_after(0);
            mc_op("schedule without memory");
            int32_t id = embc_evm_schedule(evm, 3, cb0, 0);
            mc_check(id == 0, "schedule without memory returned %d", id);
            mc_alloc_fail_after(-1);
        } else { do_schedule(times[mc_choose(3)]); }
        queries(0);
    }
    do_process(10);
    mc_check(np == 0, "an event never ran");
    finish();
}
static const struct mc_scenario c21[] = {
    {"callback actions", act_run, 3, 4, 0, 0},
    {"out of memory", oom_run, 0, 0, 0, 0},
    {0}
};
const struct mc_property mc_properties[] = {
    {"C20", c20},
    {"C21", c21},
    {0}
};
