/* Framer: link of two framers (C01, C02, C06, C07), one framer against a scripted peer (C02, C05, C06),
 * byte streams (C03), frame layout and checksums (C04), ports (C08). */
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "embc/cdef.h"
#include "embc/ec.h"
#include "embc/memory/buffer.h"
#include "embc/collections/list.h"
#include "embc/stream/framer.h"
#include "embc/stream/framer_util.h"
#include "embc/platform.h"
#include "embc/time.h"

#define MS(x) ((int64_t) (((x) * (1LL << 30)) / 1000))
enum { P1 = 0x100, P2 = 0x200, P5 = 0x400, P6 = 0x800, P7 = 0x1000, P8 = 0x2000 };
static int props;
#define CK(p, cond, ...) do { if ((props & (p)) && !(cond)) { mc_fail(__VA_ARGS__); } } while (0)

/* ------------------------------------------------------------ independent frame codec */
static uint32_t MC_KEEP t32[256]; static uint8_t MC_KEEP t8[256]; static int MC_KEEP tinit;
static void crc_init(void) {
    if (tinit) { return; }
    for (int i = 0; i < 256; ++i) {
        uint32_t c = i; uint8_t d = (uint8_t) i;
        for (int k = 0; k < 8; ++k) { c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1; d = (uint8_t) ((d & 1) ? (d >> 1) ^ 0xE0 : d >> 1); }
        t32[i] = c; t8[i] = d;
    }
    tinit = 1;
}
static uint32_t crc32(uint8_t const * p, int n) { uint32_t c = 0xffffffffu; while (n--) { c = (c >> 8) ^ t32[(c ^ *p++) & 0xff]; } return ~c; }
static uint8_t crc8(uint8_t const * p, int n) { uint8_t c = 0xff; while (n--) { c = t8[c ^ *p++]; } return (uint8_t) ~c; }
static int build(uint8_t * o, int id, int port, int msg, int pd, uint8_t const * pl, int len) {
    o[0] = 0xAA; o[1] = (uint8_t) id; o[2] = (uint8_t) port; o[3] = (uint8_t) msg; o[4] = (uint8_t) len; o[5] = (uint8_t) pd; o[6] = (uint8_t) (pd >> 8); o[7] = crc8(o, 7);
    if (len) { memcpy(o + 8, pl, len); }
    uint32_t c = crc32(o, 8 + len);
    for (int i = 0; i < 4; ++i) { o[8 + len + i] = (uint8_t) (c >> (8 * i)); }
    o[12 + len] = 0xAA;
    return 13 + len;
}
static int parse_ok(uint8_t const * b, int n) {     /* n: exactly one intact frame? */
    return n >= 13 && b[0] == 0xAA && b[7] == crc8(b, 7) && b[4] + 13 == n && crc32(b, n - 5) == (uint32_t) (b[n - 5] | b[n - 4] << 8 | b[n - 3] << 16 | (uint32_t) b[n - 2] << 24);
}

/* Reference parser: leftmost-first scan of the byte stream; one extracted frame per call, 0: more bytes needed. */
struct parser { uint8_t b[1024]; int n, bad; };      /* bad: intact header, damaged frame */
static int doubtful, keep_doubtful;
static int ref_feed(struct parser * p, uint8_t const * d, int n) { mc_check(p->n + n <= (int) sizeof(p->b), "harness: reference parser full"); memcpy(p->b + p->n, d, n); p->n += n; return 0; }
static int ref_next(struct parser * p, uint8_t * out) {
    int i = 0, len = 0;
    for (; i < p->n; ++i) {
        uint8_t * b = p->b + i; int n = p->n - i;
        if (b[0] != 0xAA) { continue; }
        if (n < 8) { break; }
        if (b[7] != crc8(b, 7) || b[4] > 240) { continue; }
        if (b[1] == 0xAA) { ++doubtful; if (keep_doubtful) { continue; } mc_prune(); }       /* repeated start bytes are skipped or a header: not specified */
        if (n < b[4] + 13) { break; }
        if (!parse_ok(b, b[4] + 13)) { ++p->bad; continue; }
        len = b[4] + 13; memcpy(out, b, len);
        break;
    }
    p->n -= i + len; memmove(p->b, p->b + i + len, p->n);
    return len;
}

/* ------------------------------------------------------------ the environment of a framer */
#define NMSG 64
#define NBUF 24
struct own { struct embc_buffer_s * b; int len, sent; uint8_t copy[256]; };
static struct side {
    int s;
    struct embc_framer_s * f; struct embc_buffer_allocator_s * ba;
    struct embc_list_s hal; struct own own[32]; int nown, nlate;            /* buffers owned by the HAL, oldest first */
    struct { int len; uint8_t d[260]; } link[64]; int nlink;                /* bytes on the way to the peer */
    int t_on; int64_t t_at; uint32_t t_id; void (*t_fn)(void *, uint32_t); void * t_ud;
    int id0;                                                                /* frame id of message 0 */
    int nsend, nstart, ncomp, nrx;                                          /* sends, started, completed, delivered here */
    int ntx[NMSG], acked[NMSG], direct[NMSG], arrived[NMSG], deliv[NMSG], status[NMSG]; int64_t ttx[NMSG];
    int ndata, nacks;                                                       /* frames this side passed to its HAL */
    int resyncs;
    struct parser ref;                                                      /* what the peer extracts from our bytes */
} S[2];
static int64_t T, gap_limit[2];
static uint32_t tid;
static struct { int sync, echo, chain, N[2], pace, ooo, nomatch, allsizes, late, fault, period, cnt; } C;

static int m_len(int n) { static const int l[] = {2, 5, 1, 9, 3}; return l[n % 5]; }
static int m_port(int s, int n) { static const int p[] = {1, 15, 6}; return p[(n + s) % 3]; }
static int m_msg(int s, int n) { return (uint8_t) (n * 7 + s); }
static int m_pd(int s, int n) { return 0x1100 * (s + 1) + n * 0x101 + 2; }
static uint8_t * m_data(int s, int n) { static uint8_t d[16]; for (int i = 0; i < 16; ++i) { d[i] = (uint8_t) (i == 1 ? 0xAA : n * 31 + i * 17 + s * 101); } return d; }
static int m_frame(int s, int n, uint8_t * o) { return build(o, (S[s].id0 + n) & 15, m_port(s, n), m_msg(s, n), m_pd(s, n), m_data(s, n), m_len(n)); }

static void hal_check(struct side * a) {
    CK(P6, (int) embc_list_length(&a->hal) == a->nown, "a buffer owned by the HAL was freed or reused");
    for (int i = 0; i < a->nown; ++i) { CK(P6, a->own[i].b->length == a->own[i].len && 0 == memcmp(a->own[i].b->data, a->own[i].copy, a->own[i].len), "a buffer owned by the HAL was modified"); }
}
static void link_put(struct side * a, uint8_t const * d, int len) {
    mc_check(a->nlink < 64, "harness: link full");
    a->link[a->nlink].len = len; memcpy(a->link[a->nlink].d, d, len); ++a->nlink;
}
static void hal_done(struct side * a, int i) {
    struct own o = a->own[i];
    hal_check(a);
    memmove(&a->own[i], &a->own[i + 1], sizeof(o) * (a->nown - i - 1)); --a->nown;
    embc_list_remove(&o.b->item);
    embc_framer_hal_tx_done(a->f, o.b);
}
static void (*tx_hook)(uint8_t const * frame);
static void hal_tx(void * hal, struct embc_buffer_s * b) {
    struct side * a = hal;
    for (int i = 0; i < a->nown; ++i) { CK(P6, a->own[i].b != b, "a buffer was handed to the HAL again before transmit done"); if (a->own[i].b == b) { return; } }
    mc_check(a->nown < 32, "harness: too many buffers in the HAL");
    mc_check(b->length >= 13 && b->length <= 253, "transmit of %d bytes", b->length);
    struct own * o = &a->own[a->nown++];
    o->b = b; o->len = b->length; o->sent = 0; memcpy(o->copy, b->data, o->len);
    embc_list_add_tail(&a->hal, &b->item);
    mc_check(parse_ok(o->copy, o->len) && o->copy[o->len - 1] == 0xAA, "an invalid frame was transmitted");
    if (0 == (o->copy[1] & 0x80)) {
        if (C.nomatch) { ++a->ndata; if (tx_hook) { tx_hook(o->copy); } }
        else if (o->copy[2] != 0) {
        int n = -1;
        for (int k = a->nstart; k >= 0 && k >= a->nstart - 15; --k) { if (k < a->nsend && ((a->id0 + k) & 15) == o->copy[1]) { n = k; break; } }
        mc_check(n >= 0, "transmit of a data frame that was never sent, id %d", o->copy[1]);
        uint8_t w[64]; int wl = m_frame(a->s, n, w);
        mc_check(wl == o->len && 0 == memcmp(w, o->copy, wl), "message %d was transmitted with other contents", n);
        if (n == a->nstart) { ++a->nstart; mc_note("%c starts message %d", 'A' + a->s, n); } else { mc_note("%c retransmits message %d", 'A' + a->s, n); }
        CK(P7, n < a->nstart, "message %d started before message %d", n, a->nstart);
        CK(P2 | P7, n >= a->ncomp, "message %d transmitted again after its completion", n);
        CK(P7, a->nstart - a->ncomp <= 3, "%d data frames outstanding", a->nstart - a->ncomp);
        ++a->ntx[n]; a->ttx[n] = T; ++a->ndata;
        }
    } else { ++a->nacks; }
    if (C.sync == 2) { hal_done(a, a->nown - 1); }
    else if (C.sync) { link_put(a, o->copy, o->len); hal_done(a, a->nown - 1); }
}
static int64_t hal_time(void * hal) { (void) hal; return T; }
static int32_t hal_timer_set(void * hal, int64_t timeout, void (*fn)(void *, uint32_t), void * ud, uint32_t * id) {
    struct side * a = hal;
    CK(P7, !a->t_on, "a second timer was set");
    *id = ++tid;
    if (C.late && timeout <= T) { mc_note("%c set a timer that is due: called at once", 'A' + a->s);
        for (int n = a->ncomp; n < a->nstart; ++n) { for (int i = 0; i < a->nown; ++i) { if (a->own[i].copy[1] == ((a->id0 + n) & 15)) { a->ttx[n] = T; } } }   /* cannot be retransmitted: the timeout restarts */
        fn(ud, *id); return 0;
    }
    a->t_on = 1; a->t_at = timeout; a->t_fn = fn; a->t_ud = ud; a->t_id = tid;
    return 0;
}
static int32_t hal_timer_cancel(void * hal, uint32_t id) {
    struct side * a = hal;
    CK(P7, a->t_on && id == a->t_id, "cancel of %s timer", a->t_on ? "another" : "an expired or cancelled");
    if (id == a->t_id) { a->t_on = 0; }
    return 0;
}
static void app_send(struct side * a);
static void gap_update(struct side * from) {
    int lo = 0, hi = -1;
    for (int k = 0; k < from->nstart; ++k) { if (from->arrived[k]) { hi = k; } }
    while (lo < from->nstart && from->arrived[lo]) { ++lo; }
    if (hi > lo) { if (!gap_limit[from->s]) { gap_limit[from->s] = T + MS(800); } } else { gap_limit[from->s] = 0; }
}
static void app_rx(void * port, uint8_t port_id, uint8_t msg, uint16_t pd, struct embc_buffer_s * b) {
    struct side * a = &S[(intptr_t) port / 16];
    int n = a->nrx, s = 1 - a->s;
    CK(P8, (intptr_t) port % 16 == port_id, "a frame for port %d reached the handler of port %d", port_id, (int) ((intptr_t) port % 16));
    mc_note("%c receives message id %d on port %d", 'A' + a->s, msg, port_id);
    if (!C.ooo) {
        CK(P1, n < S[s].nsend, "delivery of a message that was not sent");
        int len = (int) embc_buffer_read_remaining(b), want = m_len(n);
        CK(P1, msg == m_msg(s, n) && port_id == m_port(s, n) && pd == m_pd(s, n), "message %d expected, another one was delivered (id %d): duplicate, lost or out of order", n, msg);
        CK(P1, len == want && 0 == memcmp(b->data + b->cursor, m_data(s, n), want), "message %d was delivered with other contents", n);
        CK(P1, S[s].arrived[n], "message %d was delivered but never arrived", n);
        a->nrx = n + 1;
    } else {
        for (n = 0; n < S[s].nsend; ++n) { if (msg == m_msg(s, n) && pd == m_pd(s, n)) { break; } }
        if (n < S[s].nsend) { CK(P7, !S[s].deliv[n], "message %d was delivered twice", n); S[s].deliv[n] = 1; }
        ++a->nrx;
    }
    embc_buffer_free(b);
    if (C.echo && a->nsend < C.N[a->s]) { app_send(a); }
}
static void app_done(void * port, uint8_t port_id, uint8_t msg, uint16_t pd, int32_t status) {
    struct side * a = &S[(intptr_t) port / 16];
    int n = a->ncomp;
    mc_note("%c completion of message id %d with status %d", 'A' + a->s, msg, (int) status);
    CK(P2, n < a->nsend, "a completion without a send");
    CK(P2, (intptr_t) port % 16 == port_id, "completion at the wrong port");
    CK(P2, port_id == m_port(a->s, n) && msg == m_msg(a->s, n) && pd == m_pd(a->s, n), "completion of message %d expected, another one was completed (id %d)", n, msg);
    if (status == 0) { CK(P2, a->acked[n], "message %d reported success but was not acknowledged", n); }
    if (status != 0 && !a->resyncs) { CK(P2, a->ntx[n] >= 17, "message %d failed with status %d after %d transmissions", n, (int) status, a->ntx[n]); }
    a->status[n] = status; ++a->ncomp;
    if (C.chain && a->nsend < C.N[a->s]) { app_send(a); }
}
static void app_send(struct side * a) {
    int n = a->nsend++; uint8_t * d = m_data(a->s, n); int len = m_len(n);
    mc_op("%c sends message %d, port %d id %d", 'A' + a->s, n, m_port(a->s, n), m_msg(a->s, n));
    if (n % 3 == 0) { embc_framer_send_payload(a->f, (uint8_t) m_port(a->s, n), (uint8_t) m_msg(a->s, n), (uint16_t) m_pd(a->s, n), d, (uint8_t) len); }
    else {
        struct embc_buffer_s * b = (n % 3 == 1) ? embc_framer_alloc(a->f) : embc_buffer_alloc(a->ba, 16);
        embc_buffer_write(b, d, len);
        embc_framer_send(a->f, (uint8_t) m_port(a->s, n), (uint8_t) m_msg(a->s, n), (uint16_t) m_pd(a->s, n), b);
    }
}
static void side_init(int s) {
    struct side * a = &S[s];
    static const embc_size_t few[] = {NBUF, 0, 0, NBUF}, all[] = {NBUF, NBUF, NBUF, NBUF};
    const embc_size_t * sizes = C.allsizes ? all : few;
    a->s = s;
    embc_list_initialize(&a->hal);
    a->ba = embc_buffer_allocator_new(sizes, 4);
    a->f = mc_malloc(embc_framer_instance_size());
    struct embc_framer_hal_callbacks_s h = {a, hal_tx, hal_time, hal_timer_set, hal_timer_cancel};
    embc_framer_initialize(a->f, a->ba, &h);
    for (int p = 1; p < 16; ++p) {
        struct embc_framer_port_callbacks_s c = {(void *) (intptr_t) (s * 16 + p), app_rx, app_done};
        embc_framer_register_port_callbacks(a->f, (uint8_t) p, &c);
    }
    for (int i = 0; i < NMSG; ++i) { a->status[i] = -1; }
}
static int available(struct embc_buffer_allocator_s * ba, int size, int finalized) {
    struct embc_buffer_s * b[2 * NBUF]; int n = 0;
    (void) finalized;
    while (n < 2 * NBUF && (b[n] = embc_buffer_alloc_unsafe(ba, size))) { for (int i = 0; i < n; ++i) { CK(P6, b[i] != b[n], "the same buffer is available twice"); } ++n; }
    for (int i = 0; i < n; ++i) { embc_buffer_free(b[i]); }
    return n;
}
static void check_idle(struct side * a, const char * when) {
    int s = available(a->ba, 14, 0), l = available(a->ba, 253, 0);
    CK(P6, s == NBUF, "%d of %d small buffers available %s", s, NBUF, when);
    CK(P6, l == NBUF - 1, "%d of %d large buffers available %s", l, NBUF - 1, when);
}
static void side_close(struct side * a) {
    mc_op("%c finalize", 'A' + a->s);
    int owned_s = 0, owned_l = 0;
    for (int i = 0; i < a->nown; ++i) { if (a->own[i].b->capacity < 64) { ++owned_s; } else { ++owned_l; } }
    hal_check(a);
    embc_framer_finalize(a->f);
    CK(P7, !a->t_on, "a timer is pending after finalize");
    hal_check(a);
    int s = available(a->ba, 14, 1), l = available(a->ba, 253, 1);
    CK(P6, s == NBUF - owned_s && l == NBUF - owned_l, "after finalize %d and %d of %d and %d buffers are available", s, l, NBUF - owned_s, NBUF - owned_l);
    mc_free(a->f); mc_free(a->ba);
}
/* invariants between events */
static void check_progress(struct side * a) {
    hal_check(a);
    if (a->resyncs) { return; }
    CK(P7, a->nsend == a->nstart || a->nstart - a->ncomp == 3, "message %d waits although only %d data frames are outstanding", a->nstart, a->nstart - a->ncomp);
    for (int n = a->ncomp; n < a->nstart; ++n) {
        if (a->acked[n]) { continue; }
        int owned = 0; uint8_t id = (uint8_t) ((a->id0 + n) & 15);
        for (int i = 0; i < a->nown; ++i) { if (a->own[i].copy[1] == id) { owned = 1; } }
        CK(P7, a->t_on, "no timer is pending although message %d awaits acknowledgement", n);
        if (!owned && (n == a->ncomp || a->ntx[n] <= 16)) { CK(P7, a->t_at <= a->ttx[n] + MS(251), "the timer is later than the transmit timeout of message %d", n); }
    }
    if (a->ncomp < a->nstart) { CK(P2 | P7, !a->direct[a->ncomp], "message %d was acknowledged but not completed", a->ncomp); }
}
static void fire(struct side * a) {
    if (a->t_at > T) { T = a->t_at; }
    mc_op("timer of %c at %d ms", 'A' + a->s, (int) (T * 1000 >> 30));
    for (int s = 0; s < 2; ++s) { if (props == P1 && gap_limit[s] && T >= gap_limit[s]) { mc_prune(); } }    /* outside the reorder window */
    int64_t ttx[NMSG]; memcpy(ttx, a->ttx, sizeof(ttx));
    int c0 = a->ncomp, c1 = a->nstart; uint32_t owned = 0;
    for (int n = c0; n < c1; ++n) { for (int i = 0; i < a->nown; ++i) { if (a->own[i].copy[1] == ((a->id0 + n) & 15)) { owned |= 1u << (n - c0); } } }
    a->t_on = 0;
    a->t_fn(a->t_ud, a->t_id);
    for (int n = c0; n < c1 && !a->resyncs; ++n) {
        if (owned & (1u << (n - c0))) { a->ttx[n] = T; continue; }
        if (a->acked[n] || n < a->ncomp) { continue; }
        if (T >= ttx[n] + MS(250) && a->ntx[n] <= 16) { CK(P7, a->ttx[n] == T, "message %d was not retransmitted after its timeout", n); }
    }
    check_progress(a);
}
/* bookkeeping when an intact frame of `from` reaches its peer */
static void note_arrival(struct side * from, uint8_t const * d) {
    struct side * to = &S[1 - from->s];
    if (0 == (d[1] & 0x80)) {
        for (int k = from->nstart - 1; k >= 0 && k >= from->nstart - 15; --k) { if (((from->id0 + k) & 15) == d[1]) { from->arrived[k] = 1; break; } }
        gap_update(from);
    } else if (d[8] == 0) {
        for (int k = to->nstart - 1; k >= 0 && k >= to->ncomp; --k) {
            int delta = (d[1] - (to->id0 + k)) & 15;    /* ack id is `delta` after message k */
            if (delta == 0) { to->acked[k] = 1; to->direct[k] = 1; }
            else if (delta <= 8 && (((d[6] << 8) | d[5]) & (0x100 >> delta))) { to->acked[k] = 1; }
        }
    }
}
static void link_bytes(struct side * a, uint8_t const * d, int len) {
    struct side * to = &S[1 - a->s]; uint8_t o[256];
    for (int i = 0; i < len; ++i) {     /* bytewise: a frame takes effect when its last byte arrives */
        ref_feed(&a->ref, d + i, 1);
        while (ref_next(&a->ref, o)) { note_arrival(a, o); }
        embc_framer_hal_rx_byte(to->f, d[i]);
    }
}
static const char * const FAULT[] = {"intact", "lost", "payload bit flip", "header bit flip", "checksum bit flip", "first byte missing", "second half missing", "inner byte missing", "garbage in front", "last byte missing"};
static int nfault; static int inject_max = 10;
static void link_get(struct side * a, int fault) {
    struct side * to = &S[1 - a->s];
    uint8_t d[280]; int len = a->link[0].len;
    memcpy(d, a->link[0].d, len);
    --a->nlink; memmove(&a->link[0], &a->link[1], sizeof(a->link[0]) * a->nlink);
    mc_op("%c receives a %s frame id %d%s%s", 'A' + to->s, d[1] & 0x80 ? "ack" : "data", d[1] & 15, fault ? ", " : "", fault ? FAULT[fault] : "");
    switch (fault) {
        case 1: len = 0; break;
        case 2: d[8] ^= 0x10; break;
        case 3: d[4] ^= 0x01; break;
        case 4: d[len - 3] ^= 0x80; break;
        case 5: memmove(d, d + 1, --len); break;
        case 6: len /= 2; break;
        case 7: memmove(d + 9, d + 10, len - 10); --len; break;
        case 8: memmove(d + 3, d, len); d[0] = 0xAA; d[1] = 0; d[2] = 0x55; len += 3; break;
        case 9: --len; break;
    }
    if (fault) { ++nfault; }
    link_bytes(a, d, len);
}
/* one step of the joined link; returns 0 when nothing is left to do */
static int step(int allow_dev) {
    enum { RX = 0, DONE = 2, TX = 4, APP = 6, TIMER = 8, TXL = 10 };
    int act[16], n = 0;
    int order[] = {RX, RX + 1, DONE, DONE + 1, TX, TX + 1, APP, APP + 1, TIMER};
    if (!C.pace) { int o2[] = {APP, APP + 1, RX, RX + 1, DONE, DONE + 1, TX, TX + 1, TIMER}; memcpy(order, o2, sizeof(order)); }
    for (int i = 0; i < 9; ++i) {
        int k = order[i], s = k & 1;
        switch (k & ~1) {
            case RX: if (S[s].nlink) { act[n++] = k; } break;
            case DONE: if (S[s].nlate) { act[n++] = k; } break;
            case TX: if (S[s].nown > S[s].nlate) { act[n++] = k; } break;
            case APP: if (S[s].nsend < C.N[s] && !C.echo && !(C.chain && S[s].nsend)) { act[n++] = k; } break;
            case TIMER: if (S[0].t_on || S[1].t_on) { act[n++] = k; } break;
        }
    }
    if (!n) { return 0; }
    int c = 0, fault = 0, late = 0;
    if (allow_dev) {
        /* alternatives: another enabled action, a fault of the delivery, a late transmit done */
        int alt = n - 1, rx = (act[0] & ~1) == RX ? inject_max - 1 : 0, tx = (act[0] & ~1) == TX ? 1 : 0;
        int slow = C.late && (S[0].t_on || S[1].t_on);
        int d = mc_dev(1 + alt + rx + tx + 2 * slow);
        if (d > alt + rx + tx) { T += MS(d == alt + rx + tx + 1 ? 260 : 900); mc_op("time passes to %d ms, the timers are late", (int) (T * 1000 >> 30));
            for (int g = 0; g < 2; ++g) { if (props == P1 && gap_limit[g] && T >= gap_limit[g]) { mc_prune(); } }
            return 1;
        }
        if (d > 0 && d <= alt) { c = d; }
        else if (d > alt && d <= alt + rx) { fault = d - alt; }
        else if (d) { late = 1; }
    }
    int k = act[c], s = k & 1; struct side * a = &S[s];
    switch (k & ~1) {
        case RX:
            if (C.fault && ++C.cnt % C.period == C.cnt / C.period % C.period) { fault = C.fault; }
            link_get(a, fault); break;
        case DONE: mc_op("%c transmit done (late)", 'A' + s); a->nlate--; hal_done(a, 0); break;
        case TX:
            link_put(a, a->own[a->nlate].copy, a->own[a->nlate].len);
            if (late || a->nlate) { mc_op("%c transmits, done is late", 'A' + s); ++a->nlate; }
            else { mc_op("%c transmits", 'A' + s); hal_done(a, 0); }
            break;
        case APP: app_send(a); break;
        case TIMER: {
            int w = !S[0].t_on ? 1 : !S[1].t_on ? 0 : (S[1].t_at < S[0].t_at);
            fire(&S[w]);
            break;
        }
    }
    check_progress(&S[0]); check_progress(&S[1]);
    return 1;
}
static void settle(void) {
    int i = 0;
    while (step(0)) { CK(P7, ++i < 4000, "the link never becomes idle"); if (i > 5000) { mc_prune(); } }
}
/* no scenario may depend on the origin of the clock: each has its own, near the limits of 32 bits, negative or large */
static int64_t epoch(int k) {
    static const int64_t e[] = {MS(1000), (1LL << 31) - MS(100), (1LL << 32) - MS(300), -MS(200), (1LL << 50) + 12345, -(1LL << 50) - 1, (1LL << 63) + MS(5), (1LL << 52) - MS(100)};
    return e[k & 7];
}
enum { BI = 1, WRAP = 2, PACE = 4, ECHO = 8, SYNC = 16, CHAIN = 32, LONG = 64, LATE = 128 };
static void rebase(int k, const char * what) {      /* an exchange of k messages each way is over: start counting anew */
    CK(P1, S[0].nrx == k && S[1].nrx == k, "%sexchange of %d messages delivered %d and %d", what, k, S[1].nrx, S[0].nrx);
    for (int s = 0; s < 2; ++s) {
        struct side * a = &S[s];
        CK(P2 | P7, a->ncomp == k, "%sexchange of %d messages completed %d", what, k, a->ncomp);
        for (int i = 0; i < k; ++i) { CK(P2, a->status[i] == 0, "message %d of %c completed with status %d", i, 'A' + s, a->status[i]); }
        a->id0 = (a->id0 + k) & 15; a->nsend = a->nstart = a->ncomp = a->nrx = 0;
        memset(a->ntx, 0, sizeof(a->ntx)); memset(a->acked, 0, sizeof(a->acked)); memset(a->direct, 0, sizeof(a->direct)); memset(a->arrived, 0, sizeof(a->arrived)); gap_limit[s] = 0;
        for (int i = 0; i < NMSG; ++i) { a->status[i] = -1; }
    }
}
static void link_start(int cfg) {
    crc_init();
    embc_allocator_set((embc_alloc_fn) mc_malloc, mc_free);
    T = epoch(((cfg >> 3) ^ cfg) + (cfg >> 6));
    side_init(0); side_init(1);
    C.late = !!(cfg & LATE); C.sync = !!(cfg & SYNC); C.pace = !!(cfg & PACE);
    if (cfg & WRAP) { int k = 12 + mc_choose(4); for (int s = 0; s < 2; ++s) { C.N[s] = k; } settle(); rebase(k, "undisturbed "); }   /* start the id space elsewhere */
}
static void link_run(void) {
    int cfg = mc_arg & 0xff; props = mc_arg & 0xff00;
    int n = cfg & LONG ? 7 : 4;
    link_start(cfg);
    C.N[0] = n; C.N[1] = cfg & (BI | ECHO) ? n - 1 : 0;
    C.chain = !!(cfg & CHAIN);
    if (cfg & ECHO) { C.N[0] = n; S[0].nsend = S[0].nsend; }
    if (cfg & ECHO) { for (int i = 0; i < n; ++i) { app_send(&S[0]); } C.echo = 1; C.N[0] = n; }
    for (int i = 0; i < 400; ++i) { if (!step(mc_dev_left() > 0)) { break; } }
    settle();
    for (int s = 0; s < 2; ++s) {
        struct side * a = &S[s];
        CK(P2 | P7, a->ncomp == a->nsend, "%d of %d sends of %c were completed", a->ncomp, a->nsend, 'A' + s);
        for (int i = 0; i < a->ncomp; ++i) { CK(P2, a->status[i] == 0, "message %d of %c completed with status %d", i, 'A' + s, a->status[i]); }
        CK(P1, S[1 - s].nrx == a->nsend, "%d of %d messages of %c were delivered", S[1 - s].nrx, a->nsend, 'A' + s);
        CK(P7, !a->t_on, "a timer is pending although nothing is outstanding");
        check_idle(a, "on an idle link");
    }
    mc_state(mc_mix(mc_mix(S[0].ndata * 64 + S[0].nacks, S[1].ndata * 64 + S[1].nacks), T));
    side_close(&S[0]); side_close(&S[1]);
}

/* shut down at any point of an exchange, with any number of messages queued, on their way, kept out of order, half received */
static void shutdown_run(void) {
    int cfg = mc_arg & 0xff; props = mc_arg & 0xff00;
    static const int ns[] = {0, 1, 2, 3, 4, 5, 6, 9, 12}, ms[] = {0, 1, 4};
    link_start(cfg);
    int two = !!(cfg & CHAIN);
    C.N[0] = two ? 3 + 2 * mc_choose(2) : ns[mc_choose(9)]; C.N[1] = ms[mc_choose(3)];
    if (!C.N[0] && !C.N[1]) { mc_prune(); }
    int k = mc_choose(mc_tier(30, 60)), half = two ? 1 : mc_choose(2), first = mc_choose(2);
    for (int i = 0; i < k; ++i) { if (!step(mc_dev_left() > 0)) { mc_prune(); } }
    mc_state(mc_mix(mc_mix(S[0].ndata * 64 + S[0].nacks, S[1].ndata * 64 + S[1].nacks), mc_mix(S[0].nown * 32 + S[1].nown, S[0].ncomp * 64 + S[0].nsend)));
    if (half) { uint8_t d[64]; int n = build(d, 5, 1, 2, 3, (uint8_t const *) "abcdefgh", 8); for (int s = 0; s < 2; ++s) { embc_framer_hal_rx_buffer(S[s].f, d, n - 9); } }
    side_close(&S[first]); side_close(&S[1 - first]);
}

/* far more messages than any narrow counter holds, without faults and with one kind of fault at regular places */
static void marathon_run(void) {
    int cfg = mc_arg & 0xff; props = mc_arg & 0xff00;
    link_start(cfg);
    int fault = mc_choose(10), k = 11 + 2 * mc_choose(2), rounds = fault ? 25 : 6000;
    C.fault = fault; C.period = 5 + mc_choose(3);
    if (fault) { C.cnt = mc_choose(mc_tier(20, 200)) * 97; } else if (C.period > 5) { mc_prune(); }
    for (int r = 0; r < rounds; ++r) {
        mc_op("round %d", r);
        C.N[0] = C.N[1] = k; settle(); rebase(k, "");
        for (int s = 0; s < 2; ++s) { CK(P7, !S[s].t_on, "a timer is pending although nothing is outstanding"); check_idle(&S[s], "on an idle link"); }
    }
    if (!fault) {
        for (int s = 0; s < 2; ++s) {
            struct embc_framer_status_s q = embc_framer_status_get(S[s].f); unsigned n = (unsigned) (k * rounds);
            CK(P8, q.rx_count == 2 * n && q.rx_data_count == n && q.rx_ack_count == n, "after %u messages each way: rx_count %u, rx_data_count %u, rx_ack_count %u", n, (unsigned) q.rx_count, (unsigned) q.rx_data_count, (unsigned) q.rx_ack_count);
            CK(P8, q.tx_count == n && !q.tx_retransmit_count && !q.rx_deduplicate_count && !q.rx_synchronization_error && !q.rx_mic_error && !q.rx_frame_id_error, "after %u messages each way: tx_count %u, other counters not all 0", n, (unsigned) q.tx_count);
        }
    }
    mc_state(mc_mix(fault * 16 + C.period, k * 100000 + C.cnt));
    side_close(&S[0]); side_close(&S[1]);
}

/* ------------------------------------------------------------ one framer against a scripted peer (C02, C06, C07) */
static void inject(uint8_t const * d, int n) {
    uint8_t o[256];
    ref_feed(&S[1].ref, d, n);
    while (ref_next(&S[1].ref, o)) { note_arrival(&S[1], o); }
    embc_framer_hal_rx_buffer(S[0].f, d, n);
    check_progress(&S[0]);
}
static void peer_ack(int id, int mask, int status) {
    uint8_t d[32], st = (uint8_t) status;
    mc_op("peer acks id %d with mask 0x%03x, status %d", id & 15, mask, status);
    int nack = status && mask, retry = -1, n0 = 0;
    struct side * a = &S[0];
    if (nack) {
        for (int n = a->ncomp; n < a->nstart; ++n) {
            int owned = 0;
            for (int i = 0; i < a->nown; ++i) { if (a->own[i].copy[1] == ((a->id0 + n) & 15)) { owned = 1; } }
            if (((a->id0 + n) & 15) == (id & 15) && owned) { a->ttx[n] = T; }   /* retransmit is deferred: the timeout restarts */
            if (((a->id0 + n) & 15) == (id & 15) && !a->acked[n] && !owned && a->ntx[n] <= 16) { retry = n; n0 = a->ntx[n]; }
        }
    }
    inject(d, build(d, 0x80 | (id & 15), 1, 0, mask, &st, 1));
    if (retry >= 0 && !C.nomatch) { CK(P7, a->ntx[retry] == n0 + 1, "message %d was not retransmitted on a negative acknowledgement", retry); }
}
static void script_tx(int late) {
    struct side * a = &S[0];
    if (late || a->nlate) { mc_op("transmits id %d, done is late", a->own[a->nlate].copy[1]); ++a->nlate; }
    else { mc_op("transmits id %d", a->own[0].copy[1]); hal_done(a, 0); }
    check_progress(a);
}
static void script_settle(int timers) {    /* from here on the peer acknowledges every data frame */
    struct side * a = &S[0];
    for (int i = 0; ; ++i) {
        CK(P7, i < 2000, "the framer never becomes idle"); if (i > 3000) { mc_prune(); }
        if (a->nlate) { --a->nlate; hal_done(a, 0); }
        else if (a->nown) { int id = a->own[0].copy[1]; script_tx(0); if (!(id & 0x80)) { peer_ack(id, 0x100, 0); } }
        else if (timers && a->t_on) { fire(a); }
        else { break; }
        check_progress(a);
    }
}
static void script_start(void) {
    crc_init();
    embc_allocator_set((embc_alloc_fn) mc_malloc, mc_free);
    T = epoch(3 + 2 * (mc_arg & 3) + (props == P7));
    side_init(0); S[1].s = 1;
}
static void script_end(void) {
    struct side * a = &S[0];
    script_settle(1);
    CK(P2 | P7, a->ncomp == a->nsend, "%d of %d sends were completed", a->ncomp, a->nsend);
    CK(P7, !a->t_on, "a timer is pending although nothing is outstanding");
    check_idle(a, "when idle");
    side_close(a);
}
static void script_run(void) {
    props = mc_arg & 0xff00;
    int wrap = mc_arg & 1, depth = mc_arg & 2 ? mc_tier(3, 4) : mc_tier(3, 5);
    script_start();
    struct side * a = &S[0];
    if (wrap) { for (int i = 0; i < 14; ++i) { app_send(a); script_settle(1); } }
    int n0 = 1 + mc_choose(4), ntx = mc_choose(n0 < 3 ? n0 + 1 : 4);
    for (int i = 0; i < n0; ++i) { app_send(a); }
    for (int i = 0; i < ntx; ++i) { script_tx(0); }
    check_progress(a);
    C.N[0] = 40; C.chain = mc_arg & 2;
    for (int i = 0; i < depth; ++i) {
        static const int masks[] = {0x100, 0x180, 0x1C0, 0x140};
        int c = mc_choose(5 + 16 + 3 + 3);
        if (c == 0) { break; }
        else if (c == 1) { if (a->nsend > wrap * 14 + 6) { mc_prune(); } app_send(a); }
        else if (c == 2) { if (a->nown == a->nlate) { mc_prune(); } script_tx(0); }
        else if (c == 3) { if (a->nown == a->nlate) { if (!a->nlate) { mc_prune(); } --a->nlate; mc_op("late transmit done"); hal_done(a, 0); } else { script_tx(1); } }
        else if (c == 4) { if (!a->t_on) { mc_prune(); } fire(a); }
        else if (c < 21) { int j = (c - 5) / 4, m = (c - 5) % 4; peer_ack(a->id0 + a->ncomp + j, masks[m], 0); }
        else if (c < 24) { peer_ack(a->id0 + a->ncomp + c - 21, 0x100, EMBC_ERROR_MESSAGE_INTEGRITY); }
        else if (c == 24) { peer_ack(0, 0, EMBC_ERROR_SYNCHRONIZATION); }
        else if (c == 25) { peer_ack(a->id0 + a->ncomp - 1, 0x1ff, 0); }
        else { uint8_t d[32]; mc_op("peer sends an acknowledgement of the wrong length"); embc_framer_hal_rx_buffer(a->f, d, build(d, 0x80 | ((a->id0 + a->ncomp) & 15), 1, 0, 0x100, d + 20, c == 26 ? 2 : 0)); }
        check_progress(a);
    }
    mc_state(mc_mix(mc_mix(a->nsend * 64 + a->nstart, a->ncomp * 64 + a->nown), a->ndata * 64 + a->nlate));
    script_end();
}
/* silence of the peer until the retries are used up, with a few acknowledgements, nacks and late transmits anywhere */
static void exhaust_run(void) {
    props = mc_arg & 0xff00;
    script_start();
    struct side * a = &S[0];
    int n = 1 + mc_choose(5), stagger = mc_choose(2);
    for (int i = 0; i < n; ++i) { app_send(a); if (stagger) { T += MS(1); } }
    for (int i = 0; i < 300 && (a->ncomp < a->nsend || a->nown); ++i) {
        int k = mc_dev(a->nown > a->nlate ? 11 : 8);
        if (k == 0) { if (a->nlate) { mc_op("late transmit done"); --a->nlate; hal_done(a, 0); } else if (a->nown) { script_tx(0); } else { if (!a->t_on) { break; } fire(a); } }
        else if (k < 4) { peer_ack(a->id0 + a->ncomp + k - 1, 0x100, 0); }
        else if (k < 7) { peer_ack(a->id0 + a->ncomp + k - 4, 0x100, EMBC_ERROR_MESSAGE_INTEGRITY); }
        else if (k == 7) { app_send(a); }
        else if (k == 8) { script_tx(1); }
        else if (k == 9) { if (!a->t_on) { mc_prune(); } fire(a); }
        else { peer_ack(a->id0 + a->ncomp + 2, 0x180, 0); }
        check_progress(a);
    }
    int m = a->nsend;
    CK(P2 | P7, a->ncomp == m, "%d of %d sends were completed although the retries are used up", a->ncomp, m);
    app_send(a); app_send(a);
    script_end();
    for (int i = m; i < a->nsend; ++i) { CK(P2, a->status[i] == 0, "message %d completed with status %d after the link recovered", i, a->status[i]); }
    mc_state(mc_mix(a->ndata, T));
}
/* an outage of the link longer than the retries, then a working link again */
static void outage_run(void) {
    props = P7; C.ooo = 1;
    link_start(0);
    int pre = mc_choose(5), fails = 1 + mc_choose(mc_tier(18, 34)), kind = mc_choose(3), post = 5, both = mc_choose(2);
    C.N[0] = pre; if (both) { C.N[1] = pre; }
    settle();
    for (int i = 0; i < pre; ++i) { CK(P7, S[0].deliv[i], "message %d was not delivered by a working link", i); }
    mc_op("the link loses %s", kind == 0 ? "data" : kind == 1 ? "acknowledgements" : "everything");
    C.N[0] = pre + fails;
    for (int i = 0; ; ++i) {
        CK(P7, i < 20000, "the link never becomes idle"); if (i > 20000) { mc_prune(); }
        for (int s = 0; s < 2; ++s) { while (S[s].nlink) { int ack = S[s].link[0].d[1] & 0x80; if (kind == 2 || (kind == 1 ? ack : !ack)) { link_get(&S[s], 1); } else { link_get(&S[s], 0); } } }
        if (!step(0)) { break; }
        /* step() delivers only when something is queued, which happens below */
        for (int s = 0; s < 2; ++s) { while (S[s].nlink) { int ack = S[s].link[0].d[1] & 0x80; if (kind == 2 || (kind == 1 ? ack : !ack)) { link_get(&S[s], 1); } else { link_get(&S[s], 0); } } }
    }
    CK(P7, S[0].ncomp == pre + fails, "%d of %d sends were completed", S[0].ncomp, pre + fails);
    mc_op("the link works again");
    C.N[0] = pre + fails + post; if (both) { C.N[1] += post; }
    settle();
    CK(P7, S[0].ncomp == pre + fails + post, "%d of %d sends were completed", S[0].ncomp, pre + fails + post);
    int lost = 0, last = 0;
    for (int i = pre + fails; i < pre + fails + post; ++i) { CK(P7, S[0].status[i] == 0, "message %d completed with status %d on a working link", i, S[0].status[i]); if (!S[0].deliv[i]) { ++lost; last = i - pre - fails + 1; } }
    if (both) { for (int i = 0; i < C.N[1]; ++i) { CK(P7, S[1].deliv[i], "message %d of B was not delivered", i); } }
    if (lost) {
        int alias = 16 - (kind == 1 ? 0 : fails % 16);
        if (alias <= 3 && last <= alias) { mc_fail_key("outage-alias", "after an outage in which %d sends failed, %d of the first %d new sends were acknowledged but not delivered", fails, lost, alias); }
        mc_fail("after an outage in which %d sends failed, %d of %d new sends were not delivered", fails, lost, post);
    }
    mc_state(mc_mix(pre * 64 + fails, kind));
    for (int s = 0; s < 2; ++s) { CK(P7, !S[s].t_on, "a timer is pending although nothing is outstanding"); side_close(&S[s]); }
}
/* ------------------------------------------------------------ any input whatsoever: buffers (C06) */
static void p0_rx(void * port, uint8_t port_id, uint8_t msg, uint16_t pd, struct embc_buffer_s * b) { (void) port; (void) port_id; (void) msg; (void) pd; embc_buffer_free(b); }
static int buf_resync_in_cb;
static void cb_rx(void * port, uint8_t port_id, uint8_t msg, uint16_t pd, struct embc_buffer_s * b) {
    (void) port; (void) port_id; (void) msg; (void) pd;
    embc_buffer_free(b);
    if (buf_resync_in_cb == 1) { buf_resync_in_cb = 0; mc_note("resync from the receive callback"); embc_framer_resync(S[0].f); }
    if (buf_resync_in_cb == 3) { buf_resync_in_cb = 0; mc_note("send from the receive callback"); embc_framer_send_payload(S[0].f, 2, 9, 9, (uint8_t const *) "x", 1); }
}
static void cb_done(void * port, uint8_t port_id, uint8_t msg, uint16_t pd, int32_t status) {
    (void) port; (void) port_id; (void) msg; (void) pd; (void) status;
    if (buf_resync_in_cb == 2) { buf_resync_in_cb = 0; mc_note("resync from the completion callback"); embc_framer_resync(S[0].f); }
    if (buf_resync_in_cb == 4) { buf_resync_in_cb = 0; mc_note("send from the completion callback"); embc_framer_send_payload(S[0].f, 2, 9, 9, (uint8_t const *) "x", 1); }
}
static void buffers_run(void) {
    props = P6; C.nomatch = 1; C.ooo = 1;
    script_start();
    struct side * a = &S[0];
    a->resyncs = 1;
    buf_resync_in_cb = mc_arg & 1 ? 1 + mc_choose(4) : 0;
    struct embc_framer_port_callbacks_s c = {0, cb_rx, cb_done}, c0 = {0, p0_rx, cb_done};
    for (int p = 1; p <= 3; ++p) { embc_framer_register_port_callbacks(a->f, (uint8_t) p, &c); }
    if (mc_choose(2)) { embc_framer_register_port_callbacks(a->f, 0, &c0); }
    int depth = mc_arg & 1 ? mc_tier(3, 4) : mc_tier(4, 5), next = 0, acks = 0;
    uint8_t d[300], last[64]; int nlast = 0;
    static const uint8_t pl[] = {1, 0xAA, 3, 4};
    if (mc_choose(2)) { next = 5; embc_framer_hal_rx_buffer(a->f, d, build(d, 4, 0, 0, EMBC_FRAMER_PORT0_RESYNC, 0, 0)); mc_op("receives a resync"); }
    for (int i = 0; i < depth; ++i) {
        int n = 0, k = mc_choose(24);
        switch (k) {
            case 0: i = depth; break;
            case 1: mc_op("send"); embc_framer_send_payload(a->f, 1, 1, 0x1234, pl, 4); break;
            case 2: { mc_op("send a plain buffer of %d bytes", i & 1 ? 0 : 3); struct embc_buffer_s * b = embc_buffer_alloc(a->ba, 253); if (!(i & 1)) { embc_buffer_write(b, pl, 3); } embc_framer_send(a->f, 2, 1, 0x1234, b); break; }
            case 3: if (a->nown == a->nlate) { mc_prune(); } script_tx(0); break;
            case 4: if (a->nown == a->nlate) { if (!a->nlate) { mc_prune(); } --a->nlate; mc_op("late transmit done"); hal_done(a, 0); } else { script_tx(1); } break;
            case 5: if (!a->t_on) { mc_prune(); } fire(a); break;
            case 6: mc_op("resync"); embc_framer_resync(a->f); break;
            case 7: n = build(d, next, 1, 7, 0x4321, pl, 4); ++next; break;
            case 8: n = build(d, next + 1, 2, 7, 0x4321, pl, 4); next += 2; break;
            case 9: n = build(d, next + 2, 3, 7, 0x4321, pl, 2); next += 3; break;
            case 10: n = build(d, next - 2, 1, 7, 0x4321, pl, 4); break;
            case 11: n = build(d, next - 3, 1, 7, 0x4321, pl, 4); break;
            case 12: n = build(d, next + 6, 1, 7, 0x4321, pl, 4); next += 7; break;
            case 13: n = build(d, next, 200, 7, 0x4321, pl, 4); break;
            case 14: n = build(d, next, 5, 7, 0x4321, pl, 1); ++next; break;
            case 15: n = build(d, next, 1, 7, 0x4321, pl, 4); d[9] ^= 1; break;
            case 16: n = build(d, next, 0, 7, EMBC_FRAMER_PORT0_PING_REQ, pl, 4); ++next; break;
            case 17: n = build(d, next, 0, 7, EMBC_FRAMER_PORT0_STATUS_REQ, pl, 1); ++next; break;
            case 18: n = build(d, next + 3, 0, 7, EMBC_FRAMER_PORT0_RESYNC, pl, 0); next += 4; break;
            case 19: n = build(d, next, 0, 7, EMBC_FRAMER_PORT0_PING_RSP, pl, 4); ++next; break;
            case 20: if (!nlast) { mc_prune(); } memcpy(d, last, n = nlast); break;
            case 21: { uint8_t z = 0; n = build(d, 0x80 | acks++, 1, 7, 0x1ff, &z, 1); break; }
            case 22: { uint8_t z = EMBC_ERROR_MESSAGE_INTEGRITY; n = build(d, 0x80 | acks, 1, 7, 0x100, &z, 1); break; }
            case 23: { uint8_t nest[40]; int m = build(nest, next, 1, 7, 1, pl, 4); n = build(d, next, 1, 7, 1, nest, m); d[n - 4] ^= 4; ++next; break; } /* damaged around an intact frame */
        }
        if (n) {
            if (k != 23) { d[1] &= 0x8f; if (k != 15 && k != 20) { uint8_t t[64]; int l = d[4]; memcpy(t, d + 8, l); n = build(d, d[1], d[2], d[3], d[5] | d[6] << 8, t, l); } }
            mc_op("receives %s id %d port %d definition 0x%04x%s", d[1] & 0x80 ? "ack" : "data", d[1] & 15, d[2], d[5] | d[6] << 8, k == 15 ? ", damaged" : k == 23 ? ", damaged around an intact frame" : "");
            if (n <= 64) { memcpy(last, d, nlast = n); }
            embc_framer_hal_rx_buffer(a->f, d, n);
        }
        hal_check(a);
    }
    mc_state(mc_mix(mc_mix(next * 16 + a->nown, a->ndata * 64 + a->nacks), a->nlate));
    if (mc_choose(2)) { script_settle(1); check_idle(a, "when idle"); }
    side_close(a);
}

static void held_run(void) {        /* the HAL is slow: it still holds old frames when their ids come round again */
    props = P6; C.nomatch = 1; C.ooo = 1;
    script_start();
    struct side * a = &S[0];
    a->resyncs = 1;
    struct embc_framer_port_callbacks_s c = {0, cb_rx, cb_done};
    embc_framer_register_port_callbacks(a->f, 1, &c);
    static const uint8_t pl[] = {1, 0xAA, 3, 4};
    int rounds = 3 + mc_choose(4), n = 1 + mc_choose(4), more = mc_choose(4), order = mc_choose(4), ack = mc_choose(2), early = mc_choose(4);
    for (int r = 0; r < rounds; ++r) {
        for (int i = 0; i < n; ++i) { mc_op("send"); embc_framer_send_payload(a->f, 1, (uint8_t) i, 0x1234, pl, 4); }
        if (early && a->nown) { /* acknowledged before the HAL is done with them, behind a frame that is not */
            peer_ack(a->own[a->nown - 1].copy[1], early == 1 ? 0x100 : early == 2 ? 0x180 : 0x080, 0);
            hal_check(a);
        }
        mc_op("resync"); embc_framer_resync(a->f);
        hal_check(a);
    }
    for (int i = 0; i < more; ++i) { mc_op("send"); embc_framer_send_payload(a->f, 1, (uint8_t) i, 0x1234, pl, 4); }
    int k = mc_choose(a->nown + 1);
    for (int i = 0; i < k; ++i) {
        int w = order == 0 ? 0 : order == 1 ? a->nown - 1 : order == 2 ? a->nown / 2 : (i & 1 ? a->nown - 1 : 0), id = a->own[w].copy[1];
        mc_op("transmit done of id %d, held at %d of %d", id, w, a->nown);
        hal_done(a, w);
        hal_check(a);
        if (ack) { peer_ack(id, 0x100, 0); hal_check(a); }
        if (i == 1 && a->t_on) { fire(a); hal_check(a); }
    }
    mc_state(mc_mix(mc_mix(rounds * 8 + n, more * 16 + order * 4 + early), k * 2 + ack));
    if (mc_choose(2)) { script_settle(1); check_idle(a, "when idle"); }
    side_close(a);
}

/* ------------------------------------------------------------ completions on every port, resync included (C02) */
static struct { int n, ncomp, resync, reg, chain, depth; struct { int port, msg, pd, acked, started; } m[48]; } Q;
static void q_send(int port);
static int q_registered(int i) { return Q.reg >> Q.m[i].port & 1; }
static void q_skip(void) { while (Q.ncomp < Q.n && !q_registered(Q.ncomp)) { ++Q.ncomp; } }
static void q_done(void * ud, uint8_t port, uint8_t msg, uint16_t pd, int32_t status) {
    mc_note("completion on port %d id %d with status %d", port, msg, (int) status);
    mc_check((intptr_t) ud == port, "completion at the wrong port");
    q_skip();
    mc_check(Q.ncomp < Q.n, "a completion without a send: port %d id %d", port, msg);
    int i = Q.ncomp++;
    mc_check(Q.m[i].port == port && Q.m[i].msg == msg && Q.m[i].pd == pd, "completion of port %d id %d expected, completed is port %d id %d definition 0x%04x", Q.m[i].port, Q.m[i].msg, port, msg, pd);
    if (status == 0) { mc_check(Q.m[i].acked, "port %d id %d reported success but was not acknowledged", port, msg); }
    else { mc_check(Q.resync && status == EMBC_ERROR_ABORTED, "port %d id %d failed with status %d", port, msg, (int) status); }
    if (Q.chain && Q.depth < 2) { ++Q.depth; q_send(Q.chain == 1 ? 1 : 15); --Q.depth; }
}
static void q_tx(uint8_t const * d) { for (int k = Q.n - 1; k >= 0 && k > Q.n - 16; --k) { if ((k & 15) == d[1]) { Q.m[k].started = 1; mc_check(Q.m[k].port == d[2] && Q.m[k].msg == d[3] && Q.m[k].pd == (d[5] | d[6] << 8), "send %d was transmitted as port %d id %d", k, d[2], d[3]); return; } } mc_fail("transmit of frame id %d, which was not sent", d[1]); }
static void q_add(int port, int msg, int pd) { mc_check(Q.n < 48, "harness: too many sends"); Q.m[Q.n].port = port; Q.m[Q.n].msg = msg; Q.m[Q.n].pd = pd; ++Q.n; }
static void q_send(int port) {
    struct side * a = &S[0]; int i = Q.n, msg = (i * 85) & 255, pd = 0x1720 + i * 0x111; uint8_t d[4] = {1, 2, 3, (uint8_t) i};
    if (port == 0) { pd = (pd & 0xff00) | 0x40 | (pd & 15); }
    mc_op("send on port %d id %d", port, msg);
    q_add(port, msg, pd);
    if (i % 3 == 0) { embc_framer_send_payload(a->f, (uint8_t) port, (uint8_t) msg, (uint16_t) pd, d, 4); }
    else { struct embc_buffer_s * b = i % 3 == 1 ? embc_framer_alloc(a->f) : embc_buffer_alloc(a->ba, 32); embc_buffer_write(b, d, 4); embc_framer_send(a->f, (uint8_t) port, (uint8_t) msg, (uint16_t) pd, b); }
}
static void q_ack(int first, int mask, int status) {
    uint8_t d[32], st = (uint8_t) status;
    mc_op("peer acks id %d with mask 0x%03x, status %d", first & 15, mask, status);
    if (!status) { for (int k = 0; k <= 2; ++k) { if (first - k >= 0 && first - k < Q.n && Q.m[first - k].started && (mask & (0x100 >> k))) { Q.m[first - k].acked = 1; } } }
    embc_framer_hal_rx_buffer(S[0].f, d, build(d, 0x80 | (first & 15), 1, 0, mask, &st, 1));
}
static void q_start(int reg) {
    props = P2; C.nomatch = 1; C.ooo = 1; tx_hook = q_tx; script_start();
    S[0].resyncs = 1; Q.reg = reg;
    for (int p = 0; p < 16; ++p) { struct embc_framer_port_callbacks_s c = {(void *) (intptr_t) p, 0, (reg >> p & 1) ? q_done : 0}; embc_framer_register_port_callbacks(S[0].f, (uint8_t) p, &c); }
}
static void q_resync(void) {
    int n = Q.n, c = Q.chain;
    mc_op("resync");
    if (c) { /* sends made by the callbacks precede the resync command */ }
    Q.resync = 1; Q.chain = 0;
    q_add(0, 0, EMBC_FRAMER_PORT0_RESYNC);
    embc_framer_resync(S[0].f);
    Q.resync = 0; Q.chain = c;
    for (int i = Q.ncomp; i < n; ++i) { mc_check(!q_registered(i), "port %d id %d was not completed by the resync", Q.m[i].port, Q.m[i].msg); }
    if (Q.ncomp < n) { Q.ncomp = n; }
}
static void q_end(void) {
    struct side * a = &S[0];
    Q.chain = 0;
    for (int i = 0; i < 600; ++i) {
        if (a->nown) { int dt = !(a->own[0].copy[1] & 0x80), id = a->own[0].copy[1]; hal_done(a, 0); if (dt) { for (int k = Q.n - 1; k >= 0 && k > Q.n - 16; --k) { if ((k & 15) == id) { Q.m[k].acked = 1; q_ack(k, 0x100, 0); break; } } } }
        else if (a->t_on) { fire(a); } else { break; }
    }
    q_skip();
    mc_check(Q.ncomp == Q.n, "%d of %d sends were completed", Q.ncomp, Q.n);
    side_close(a);
}
static void complete_run(void) {
    static const int regs[] = {0xffff, 0x8003, 0x0002};
    Q.chain = 0; q_start(regs[mc_choose(3)]); Q.chain = mc_choose(3);
    struct side * a = &S[0];
    int depth = mc_tier(4, 6);
    if (mc_choose(2)) { for (int i = 0; i < 13; ++i) { int c = Q.chain; Q.chain = 0; q_send(1 + i % 3); hal_done(a, 0); q_ack(i, 0x100, 0); q_skip(); Q.chain = c; } }
    q_send(mc_choose(2) ? 15 : 0); q_send(1);
    for (int i = 0; i < depth; ++i) {
        int k = mc_choose(14); q_skip();
        static const int ports[] = {0, 1, 2, 15};
        if (k < 4) { q_send(ports[k]); }
        else if (k == 4) { if (!a->nown) { mc_prune(); } mc_op("transmit done"); hal_done(a, 0); }
        else if (k == 5) { if (a->nown < 2) { mc_prune(); } mc_op("transmit done of all"); while (a->nown) { hal_done(a, 0); } }
        else if (k < 9) { q_ack(Q.ncomp + k - 6, 0x100, 0); }
        else if (k == 9) { q_ack(Q.ncomp + 1, 0x180, 0); }
        else if (k == 10) { q_ack(Q.ncomp + 2, 0x1C0, 0); }
        else if (k == 11) { if (!a->t_on) { mc_prune(); } fire(a); }
        else if (k == 12) { q_resync(); }
        else { q_ack(Q.ncomp, 0x100, EMBC_ERROR_MESSAGE_INTEGRITY); }
        mc_state(mc_mix(mc_mix(Q.n * 64 + Q.ncomp, a->nown), Q.reg * 4 + Q.chain));
    }
    q_end();
}
static void every_port_run(void) {
    q_start(mc_choose(2) ? 0xffff : 0x5555 << mc_choose(2));
    for (int i = 0; i < 3; ++i) { q_send(mc_choose(16)); }
    if (mc_choose(2)) { q_resync(); }
    mc_state(mc_mix(Q.reg, Q.m[0].port * 256 + Q.m[1].port * 16 + Q.m[2].port));
    q_end();
}

/* ------------------------------------------------------------ any byte stream (C03) */
static struct { int n, total; uint8_t d[16][256]; int len[16]; } HK;
static void * HK_ud = &HK;
static void hook(void * ud, struct embc_buffer_s * b) {
    mc_check(ud == HK_ud, "the receive hook was called with other user data");
    mc_check(HK.n < 16, "too many frames extracted");
    HK.len[HK.n] = b->length; memcpy(HK.d[HK.n], b->data, b->length); ++HK.n; ++HK.total;
    mc_note("extracts a frame of %d bytes, id 0x%02x", b->length, b->data[1]);
    embc_buffer_free(b);
}
#define NFRAG 31
static char const * const FRAG[NFRAG] = {
    "nothing more", "data frame", "data frame with start bytes in the payload", "empty data frame", "ack frame", "long data frame", "frame nested in a frame",
    "1 byte of a frame", "3 bytes of a frame", "7 bytes of a frame", "8 bytes of a frame", "10 bytes of a frame", "frame without its first byte", "frame without its end byte",
    "frame with other end byte", "frame with a damaged payload", "damaged frame around an intact frame", "frame with a damaged checksum", "frame with a damaged id",
    "frame with a damaged header checksum", "frame with an enlarged length", "header with length 241", "header with length 255", "garbage byte", "7 garbage bytes", "start byte", "2 start bytes", "zero byte",
    "damaged header, frame nested in the payload", "header announcing 240 bytes", "frame missing an inner byte"};
static int fragment(uint8_t * d, int k, int seq) {
    static const uint8_t pl[] = {5, 6, 7}, sofs[] = {0xAA, 0xAA, 2, 0xAA, 0, 0xAA, 0xAA};
    uint8_t in[300]; int n, m;
    n = build(d, seq & 15, 1, 0x40 + seq, 0x0102, pl, 3);
    switch (k) {
        case 1: return n;
        case 2: return build(d, seq & 15, 0xAA, 0xAA, 0xAAAA, sofs, 7);
        case 3: return build(d, seq & 15, 2, 0, 0, 0, 0);
        case 4: return build(d, 0x80 | seq, 1, 0, 0x1ff, sofs + 4, 1);
        case 5: for (int i = 0; i < 240; ++i) { in[i] = (uint8_t) (i * 7 + seq); } in[30] = in[31] = 0xAA; return build(d, seq & 15, 2, 0, 0, in, 240);
        case 6: m = build(in, (seq + 8) & 15, 3, 1, 2, pl, 3); return build(d, seq & 15, 2, 9, 8, in, m);
        case 7: return 1;
        case 8: return 3;
        case 9: return 7;
        case 10: return 8;
        case 11: return 10;
        case 12: memmove(d, d + 1, n - 1); return n - 1;
        case 13: return n - 1;
        case 14: d[n - 1] = 0x3C; return n;
        case 15: d[9] ^= 0x20; return n;
        case 16: m = build(in, (seq + 8) & 15, 3, 1, 2, pl, 3); n = build(d, seq & 15, 2, 9, 8, in, m); d[n - 3] ^= 1; return n;
        case 17: d[n - 2] ^= 0x80; return n;
        case 18: d[1] ^= 0x02; return n;
        case 19: d[7] ^= 0x10; return n;
        case 20: d[4] = 20; d[7] = crc8(d, 7); return n;
        case 21: d[4] = 241; d[7] = crc8(d, 7); return 8;
        case 22: d[4] = 255; d[7] = crc8(d, 7); return 8;
        case 23: d[0] = 0x11; return 1;
        case 24: memset(d, 0x12, 7); return 7;
        case 25: return 1;
        case 26: d[1] = 0xAA; return 2;
        case 27: d[0] = 0; return 1;
        case 28: m = build(in, (seq + 8) & 15, 3, 1, 2, pl, 3); n = build(d, seq & 15, 2, 9, 8, in, m); d[3] ^= 1; return n;
        case 29: d[4] = 240; d[7] = crc8(d, 7); return 8;
        case 30: memmove(d + 9, d + 10, n - 10); return n - 1;
    }
    return 0;
}
static void stream_run(void) {
    props = 0; C.nomatch = 1; C.sync = 2;
    script_start();
    struct side * a = &S[0];
    embc_framer_register_rx_hook(a->f, hook, &HK);
    int depth = mc_arg ? mc_arg : mc_tier(3, 4), mode = mc_choose(3);
    for (int k = 0; k <= depth; ++k) {
        uint8_t d[300], w[256]; int c = k == depth ? 0 : mc_choose(NFRAG), n;
        if (mc_arg && c > 14 && c != 15 && c != 16 && c != 20 && c != 25 && c != 29) { mc_prune(); }
        if (mc_arg && c > 0 && c < 14 && c != 1 && c != 6 && c != 8 && c != 10 && c != 12 && c != 13) { mc_prune(); }
        int last = c == 0;
        if (last) { memset(d, 0x5b, n = 270); mc_op("receives 270 filler bytes"); }    /* flushes whatever is still awaited */
        else { n = fragment(d, c, k); mc_op("receives %s (%d bytes)", FRAG[c], n); }
        HK.n = 0;
        int total = HK.total, got = 0;
        if (mode == 0) { embc_framer_hal_rx_buffer(a->f, d, n); }
        else if (mode == 1) { for (int i = 0; i < n; ++i) { embc_framer_hal_rx_byte(a->f, d[i]); } }
        else { embc_framer_hal_rx_buffer(a->f, d, n / 2); embc_framer_hal_rx_buffer(a->f, d, 0); embc_framer_hal_rx_buffer(a->f, d + n / 2, n - n / 2); }
        ref_feed(&S[1].ref, d, n);
        int l;
        while ((l = ref_next(&S[1].ref, w))) {
            mc_check(got < HK.n, "frame id 0x%02x of %d bytes was not extracted", w[1], l);
            mc_check(HK.len[got] == l && 0 == memcmp(HK.d[got], w, l - 1), "another frame was extracted: id 0x%02x of %d bytes, not id 0x%02x of %d bytes", HK.d[got][1], HK.len[got], w[1], l);
            ++got;
        }
        mc_check(HK.n == got, "%d frames were extracted, not %d", HK.n, got);
        mc_check(embc_framer_status_get(a->f).rx_count == total + got, "rx_count is %d, not %d", embc_framer_status_get(a->f).rx_count, total + got);
        mc_state(mc_mix(mc_hash(7, S[1].ref.b, S[1].ref.n), HK.total));
        if (last) { break; }
    }
    side_close(a);
}
/* tens of thousands of bytes, in pieces of any size up to everything at once */
static struct { int n, ref; uint64_t h[8000]; int len[8000]; } LS;
static void long_hook(void * ud, struct embc_buffer_s * b) {
    (void) ud;
    int i = LS.n++;
    mc_check(i < LS.ref, "a frame was extracted after the last one, id 0x%02x of %d bytes", b->data[1], b->length);
    mc_check(LS.len[i] == b->length && LS.h[i] == mc_hash(1, b->data, b->length - 1), "frame %d of the stream: another frame was extracted, id 0x%02x of %d bytes", i, b->data[1], b->length);
    embc_buffer_free(b);
}
static void long_stream_run(void) {
    static uint8_t MC_KEEP buf[72000];
    static const int pieces[] = {72000, 40000, 32768, 257, 256, 255, 253, 100, 13, 1};
    props = 0; C.nomatch = 1; C.sync = 2;
    script_start();
    struct side * a = &S[0];
    embc_framer_register_rx_hook(a->f, long_hook, 0);
    int step = 1 + mc_choose(30), piece = pieces[mc_choose(10)], rounds = step == 1 && piece == 72000 ? 30 : 1, k = step, seq = 0, total = 0;
    mc_op("stream made of every %d-th fragment in pieces of %d bytes", step, piece);
    for (int r = 0; r < rounds; ++r) {
        int n = 0, ns = 0, tries = 0; LS.n = LS.ref = 0; keep_doubtful = 1;
        while (n < 71000) {
            static struct { struct parser p; int n, ref; } MC_KEEP snap[64];       /* to go back when the bytes are open to interpretation */
            int l;
            snap[ns % 64].p = S[1].ref; snap[ns % 64].n = n; snap[ns % 64].ref = LS.ref; ++ns;
            if (k % NFRAG == 0) { ++k; }
            l = fragment(buf + n, rounds > 1 ? 1 + (k & 1) * 2 : k % NFRAG, seq++);
            doubtful = 0;
            for (int i = 0; i < l + (n + l >= 71000 ? 270 : 0); ++i) {
                uint8_t f = i < l ? buf[n + i] : 0x5b, w[256]; int m;
                ref_feed(&S[1].ref, &f, 1);
                while ((m = ref_next(&S[1].ref, w))) { mc_check(LS.ref < 8000, "harness: too many frames"); LS.len[LS.ref] = m; LS.h[LS.ref++] = mc_hash(1, w, m - 1); }
            }
            if (doubtful) {
                int back = 1 + tries / 16; ++tries;
                if (back > 60 || back > ns) { mc_prune(); }
                ns -= back; S[1].ref = snap[ns % 64].p; n = snap[ns % 64].n; LS.ref = snap[ns % 64].ref; if (tries % 16 == 15) { ++k; }
                continue;
            }
            if (tries && ns % 64 == 0) { tries = 0; }
            n += l; k += step;
        }
        memset(buf + n, 0x5b, 270); n += 270;
        for (int i = 0; i < n; i += piece) {
            mc_op("receives bytes %d to %d", i, i + piece);
            embc_framer_hal_rx_buffer(a->f, buf + i, (embc_size_t) (n - i < piece ? n - i : piece));
        }
        total += LS.ref;
        mc_check(LS.n == LS.ref, "%d frames were extracted, not %d", LS.n, LS.ref);
        mc_check((int) embc_framer_status_get(a->f).rx_count == total, "rx_count is %u, not %d", (unsigned) embc_framer_status_get(a->f).rx_count, total);
    }
    if (rounds > 1) { mc_check(total > 65536, "harness: only %d frames", total); }
    mc_state(mc_mix(step, piece));
    side_close(a);
}
/* ------------------------------------------------------------ frame layout and checksums (C04) */
static void expect_wire(struct embc_buffer_s * b, uint8_t const * w, int n, const char * how) {
    uint16_t len = 0;
    mc_tick();
    mc_check(b->length == n, "%s: %d bytes, not %d", how, b->length, n);
    mc_check(0 == memcmp(b->data, w, n), "%s: bytes differ from the documented layout", how);
    int32_t rv = embc_framer_validate(b->data, (uint16_t) n, &len);
    mc_check(rv == 0 && len == n, "%s: does not validate: %d, length %d", how, (int) rv, len);
}
static struct { int n, port, msg, pd, len; uint8_t d[256]; } GOT;
static void got_rx(void * port, uint8_t port_id, uint8_t msg, uint16_t pd, struct embc_buffer_s * b) {
    (void) port;
    ++GOT.n; GOT.port = port_id; GOT.msg = msg; GOT.pd = pd; GOT.len = (int) embc_buffer_read_remaining(b);
    memcpy(GOT.d, b->data + b->cursor, GOT.len);
    embc_buffer_free(b);
}
static void layout_run(void) {
    props = 0; C.nomatch = 1; C.allsizes = 1;
    script_start();
    struct side * a = &S[0];
    struct embc_framer_port_callbacks_s c = {0, got_rx, 0};
    for (int p = 0; p < 16; ++p) { embc_framer_register_port_callbacks(a->f, (uint8_t) p, &c); }
    int len = mc_choose(241), id = mc_choose(16), small = len < 2;
    uint8_t pl[256], w[300];
    for (int i = 0; i < 256; ++i) { pl[i] = (uint8_t) (mc_tier(i * 29 + len, i * 29 + len) ^ (i == 3 ? 0xAA : 0)); }
    mc_op("payload of %d bytes, id %d", len, id);
    for (int port = 0; port < 16; ++port) {
        for (int m = 0; m < (small ? 256 : 6); ++m) {
            static const int ms[] = {0, 1, 0x7f, 0x80, 0xAA, 0xff}, ds[] = {0, 1, 0x80, 0xff, 0x100, 0xAAAA, 0x7fff, 0xffff};
            int msg = small ? m : ms[m], pd = ds[(m + port) & 7];
            int n = build(w, id, port, msg, pd, pl, len);
            struct embc_buffer_s * b = embc_framer_construct_frame(a->f, (uint8_t) id, (uint8_t) port, (uint8_t) msg, (uint16_t) pd, pl, (uint8_t) len);
            expect_wire(b, w, n, "data frame"); embc_buffer_free(b);
            if (m == 0) {   /* through the receiver of the framer */
                uint8_t r[32];
                int rpd = (port == 0 && pd < 8) ? 0x100 : pd;
                n = build(w, id, port, msg, rpd, pl, len);
                embc_framer_hal_rx_buffer(a->f, r, build(r, (id - 1) & 15, 0, 0, EMBC_FRAMER_PORT0_RESYNC, 0, 0));
                GOT.n = 0;
                if (port & 1) {     /* through the receive hook, then again through the framer */
                    HK.n = 0;
                    if (port & 8) { embc_framer_register_rx_hook(a->f, hook, &GOT); }
                    HK_ud = (port & 4) ? 0 : &HK;
                    embc_framer_register_rx_hook(a->f, hook, HK_ud);
                    embc_framer_hal_rx_buffer(a->f, w, n);
                    mc_check(HK.n == 1 && GOT.n == 0 && HK.len[0] == n && 0 == memcmp(HK.d[0], w, n - 1), "the receive hook got other frames");
                    embc_framer_register_rx_hook(a->f, 0, (port & 2) ? &HK : 0);
                }
                embc_framer_hal_rx_buffer(a->f, w, n);
                mc_check(GOT.n == 1, "the frame was delivered %d times", GOT.n);
                mc_check(GOT.port == port && GOT.msg == msg && GOT.pd == rpd, "port, message id or definition differ: %d %d 0x%x", GOT.port, GOT.msg, GOT.pd);
                mc_check(GOT.len == len && 0 == memcmp(GOT.d, pl, len), "the payload differs");
                while (a->nown) { hal_done(a, 0); }
            }
        }
        for (int st = 0; st < 256 && len < 1; ++st) {
            uint8_t s8 = (uint8_t) st; int mask = (st * 257) ^ 0x155;
            int n = build(w, 0x80 | id, port, 255 - st, mask, &s8, 1);
            struct embc_buffer_s * b = embc_framer_construct_ack(a->f, (uint8_t) id, (uint8_t) port, (uint8_t) (255 - st), (uint16_t) mask, s8);
            expect_wire(b, w, n, "ack frame"); embc_buffer_free(b);
        }
    }
    /* what send puts on the wire; the id is the sequence number */
    if (id < 4) {
        for (int i = 0; i < 3; ++i) {
            int port = (len + i) & 15, msg = (len * 3 + i) & 255, pd = len * 257 + i;
            int n = build(w, i, port, msg, pd, pl, len);
            if (id == 0) { embc_framer_send_payload(a->f, (uint8_t) port, (uint8_t) msg, (uint16_t) pd, pl, (uint8_t) len); }
            else {
                struct embc_buffer_s * b = id == 1 ? embc_framer_alloc(a->f) : id == 2 ? embc_buffer_alloc(a->ba, 253) : embc_buffer_alloc(a->ba, len ? len : 1);
                embc_buffer_write(b, pl, len);
                embc_framer_send(a->f, (uint8_t) port, (uint8_t) msg, (uint16_t) pd, b);
            }
            mc_check(a->nown == i + 1, "nothing was transmitted");
            mc_check(a->own[i].len == n && 0 == memcmp(a->own[i].copy, w, n), "send: bytes differ from the documented layout");
        }
    }
    mc_state(len * 16 + id);
    side_close(a);
}
static void must_fail(uint8_t const * d, int n, const char * what, int i, int j) {
    uint16_t len = 0;
    mc_tick();
    int32_t rv = embc_framer_validate(d, (uint16_t) n, &len);
    if (rv == 0) { mc_fail("a frame of %d bytes validates with %s at bits %d and %d", n, what, i, j); }
}
static void damage_run(void) {
    crc_init();
    static const int lens[] = {0, 1, 2, 3, 4, 7, 8, 16, 33, 64, 127, 240};
    int ack = mc_choose(2), li = mc_choose(ack ? 1 : 12), len = ack ? 1 : lens[li], fill = mc_choose(3);
    if (len > 8 && fill < mc_tier(2, 1)) { mc_prune(); }    /* detection by a CRC does not depend on the contents */
    uint8_t pl[256], d[300];
    for (int i = 0; i < 256; ++i) { pl[i] = (uint8_t) (fill == 0 ? 0 : fill == 1 ? 0xAA : i * 73 + 11); }
    int n = build(d, ack ? 0x83 : 5, 1 + fill, 0x17, fill == 1 ? 0xAAAA : 0x0180, pl, len), bits = (n - 1) * 8, kind = mc_choose(4);
    mc_op("frame with a payload of %d bytes, fill %d, damage %d", len, fill, kind);
#define FLIP(b) (d[(b) / 8] ^= (uint8_t) (1 << ((b) % 8)))
    if (kind == 0) {        /* every 1-bit and 2-bit flip; first bit chosen, second enumerated */
        int parts = bits / 8, p = mc_choose(parts);
        for (int i = p * 8; i < p * 8 + 8; ++i) {
            FLIP(i);
            must_fail(d, n, "a flipped bit", i, i);
            int end = i < 64 ? 64 : bits;
            for (int j = i + 1; j < end; ++j) { FLIP(j); must_fail(d, n, "two flipped bits", i, j); FLIP(j); }
            FLIP(i);
        }
        mc_state(mc_mix(n, p));
    } else if (kind == 1) { /* bursts: both end bits flipped, and a pattern between */
        int full = mc_tier(10, 14), sp = mc_choose((n - 1));
        for (int start = sp * 8; start < sp * 8 + 8; ++start) {
            int end = start < 64 ? 64 : bits;
            for (int w = 3; w <= 32 && start + w <= end; ++w) {
                int inner = w - 2, np = w <= full && n < 64 ? 1 << inner : 4 + inner;
                if (start < 64 && w > 8 + 24) { break; }
                for (int p = 0; p < np; ++p) {
                    uint32_t m = w <= full && n < 64 ? (uint32_t) p : p == 0 ? 0 : p == 1 ? 0xffffffffu : p == 2 ? 0x55555555u : p == 3 ? 0xaaaaaaaau : 1u << (p - 4);
                    if (inner < 32) { m &= (1u << inner) - 1; }
                    uint8_t s[300]; memcpy(s, d, n);
                    FLIP(start); FLIP(start + w - 1);
                    for (int b = 0; b < inner; ++b) { if (m & (1u << b)) { FLIP(start + 1 + b); } }
                    must_fail(d, n, "a burst", start, start + w - 1);
                    memcpy(d, s, n);
                }
            }
        }
        mc_state(mc_mix(n, 1000 + sp));
    } else if (kind == 2) { /* every truncation, and surplus bytes */
        for (int l = 0; l < n; ++l) {
            uint16_t got = 0; int32_t rv = embc_framer_validate(d, (uint16_t) l, &got);
            mc_tick();
            if (l < 8) { mc_check(rv == EMBC_ERROR_EMPTY || rv == EMBC_ERROR_TOO_SMALL, "%d of %d bytes: validate returned %d", l, n, (int) rv); }
            else { mc_check(rv == EMBC_ERROR_TOO_SMALL && got == n, "%d of %d bytes: validate returned %d, length %d", l, n, (int) rv, got); }
        }
        for (int l = n; l < n + 40; ++l) {
            uint16_t got = 0; int32_t rv = embc_framer_validate(d, (uint16_t) l, &got);
            mc_check(rv == 0 && got == n, "%d bytes after the frame: validate returned %d, length %d", l - n, (int) rv, got);
            mc_check(0 == embc_framer_validate(d, (uint16_t) l, 0), "validate without a length result failed");
        }
    } else {                /* every value of every byte: the error tells what is wrong */
        for (int i = 0; i < n - 1; ++i) {
            for (int v = 1; v < 256; ++v) {
                d[i] ^= (uint8_t) v;
                uint16_t got = 0; int32_t rv = embc_framer_validate(d, (uint16_t) n, &got);
                mc_tick();
                int want = i < 8 ? EMBC_ERROR_IO : EMBC_ERROR_MESSAGE_INTEGRITY;
                if (rv != want) { mc_fail("byte %d changed by 0x%02x: validate returned %d, not %d", i, v, (int) rv, want); }
                d[i] ^= (uint8_t) v;
            }
        }
        for (int l = 0; l < 256; ++l) {     /* another length with a matching header checksum */
            if (l == len) { continue; }
            uint8_t s[300] = {0}; memcpy(s, d, n); s[4] = (uint8_t) l; s[7] = crc8(s, 7);
            int32_t rv = embc_framer_validate(s, (uint16_t) 300, 0);
            if (l > 240) { mc_check(rv != 0 && rv != EMBC_ERROR_TOO_SMALL && rv != EMBC_ERROR_IO, "length %d: validate returned %d", l, (int) rv); }
            else { mc_check(rv == EMBC_ERROR_MESSAGE_INTEGRITY, "length %d instead of %d: validate returned %d", l, len, (int) rv); }
            rv = embc_framer_validate(s, 8, 0);
            mc_check(l > 240 ? rv != 0 : rv == EMBC_ERROR_TOO_SMALL, "header only, length %d: validate returned %d", l, (int) rv);
        }
    }
}
/* ------------------------------------------------------------ truthful acknowledgements (C05) */
/* Feed bytes that hold `frames` intact frames and `bad` damaged ones with an intact header.  Where remains of earlier damage
 * happen to look like a header together with the new bytes, the documented scan finds something else: not judged here (C03 does). */
static void feed(uint8_t const * d, int n, int frames, int bad) {
    uint8_t w[256]; int b0 = S[1].ref.bad, got = 0;
    ref_feed(&S[1].ref, d, n);
    while (ref_next(&S[1].ref, w)) { ++got; }
    if (got != frames || S[1].ref.bad - b0 != bad) { mc_prune(); }
    embc_framer_hal_rx_buffer(S[0].f, d, n);
}
static struct { int exp, hist[9], sync; } R5;
static int nacked(int * from) { struct side * a = &S[0]; int n = a->nown - *from; return n; }
static void ack_is(int i, int id, int port, int msg, int mask, int dont, int status, const char * what) {
    uint8_t const * o = S[0].own[i].copy;
    int m = o[5] | o[6] << 8;
    mc_note("ack id %d port %d message %d mask 0x%03x status %d", o[1] & 15, o[2], o[3], m, o[8]);
    mc_check((o[1] & 0xf0) == 0x80 && o[4] == 1, "%s: answered by something other than an acknowledgement", what);
    mc_check((o[1] & 15) == id && o[2] == port && o[3] == msg, "%s: the acknowledgement names id %d port %d message %d, not id %d port %d message %d", what, o[1] & 15, o[2], o[3], id, port, msg);
    mc_check(o[8] == status, "%s: acknowledgement status %d, not %d", what, o[8], status);
    mc_check(0 == ((m ^ mask) & ~dont), "%s: ack mask 0x%04x, not 0x%04x", what, m, mask);
    mc_check(0 == (m & ~mask), "%s: ack mask 0x%04x acknowledges frames that were not received (0x%04x)", what, m, mask);
}
static void truth_run(void) {
    props = P5; C.nomatch = 1;
    script_start();
    struct side * a = &S[0];
    a->resyncs = 1;
    struct embc_framer_port_callbacks_s c = {0, cb_rx, cb_done}; buf_resync_in_cb = 0;
    for (int p = 0; p <= 3; ++p) { embc_framer_register_port_callbacks(a->f, (uint8_t) p, &c); }
    int depth = mc_tier(4, 5), pre = mc_choose(3);
    for (int i = 0; i < depth + (pre ? pre == 1 ? 1 : 9 : 0); ++i) {
        uint8_t d[300], pl[4] = {1, 2, (uint8_t) i, 4}; int k, n, np = pre == 1 ? 1 : pre == 2 ? 9 : 0;
        int msg = (i * 37 + 5) & 255, port = 1 + i % 3, from;
        if (i < np) { k = pre == 1 ? 16 : 0; } else { k = mc_choose(27); }
        while (a->nown) { hal_done(a, 0); }
        from = 0;
        if (k < 19) {
            int rel = k < 16 ? k : k == 16 ? 11 : k == 17 ? 0 : 15, id = (R5.exp + rel) & 15;
            int resync = k >= 16;
            n = resync ? build(d, id, 0, msg, EMBC_FRAMER_PORT0_RESYNC, 0, 0) : build(d, id, port, msg, 0x300 + i, pl, 1 + i % 4);
            mc_op("receives %s id %d (expected %+d)", resync ? "resync" : "data", id, rel > 8 ? rel - 16 : rel);
            feed(d, n, 1, 0);
            mc_check(nacked(&from) == 1, "data frame id %d was answered by %d acknowledgements", id, nacked(&from));
            int mask = 0x100, dont = 0;
            if (resync) { for (int j = 1; j <= 8; ++j) { R5.hist[j] = 1; } R5.exp = (id + 1) & 15; port = 0; }
            else if (rel <= 2) {
                int h[9] = {0}; h[1] = 1;
                for (int j = 1; j <= 8; ++j) { int o = j - 1 - rel; if (o >= 1 && R5.hist[o]) { h[j] = 1; } }
                for (int j = 1; j + rel <= 8; ++j) { if (R5.hist[j]) { mask |= 0x100 >> (j + rel); } }
                memcpy(R5.hist, h, sizeof(h)); R5.exp = (id + 1) & 15;
            } else if (rel >= 13) {
                int b = 16 - rel;
                R5.hist[b] = 1;
                for (int j = 1; j <= 8; ++j) { if (R5.hist[j] && j - b <= 8) { mask |= 0x100 << b >> j; } }
                for (int j = 9; j <= 8 + b; ++j) { dont |= 0x100 << b >> j; }
            } else { memset(R5.hist, 0, sizeof(R5.hist)); R5.hist[1] = 1; R5.exp = (id + 1) & 15; }
            ack_is(0, id, port, msg, mask, dont, 0, resync ? "resync" : "data frame");
            R5.sync = 1;
        } else if (k == 19 || k == 20) {    /* damaged payload */
            int id = (R5.exp + (k == 19 ? 0 : 14)) & 15;
            n = build(d, id, port, msg, 0x300 + i, pl, 3); d[9] ^= 0x40;
            mc_op("receives data id %d with a damaged payload%s", id, R5.sync ? "" : " while not synchronized");
            feed(d, n, 0, 1);
            mc_check(nacked(&from) == 1 || (!R5.sync && nacked(&from) == 0), "a damaged data frame was answered by %d acknowledgements", nacked(&from));
            if (nacked(&from)) { ack_is(0, id, port, msg, 0x100, 0, EMBC_ERROR_MESSAGE_INTEGRITY, "damaged data frame"); }
            R5.sync = 0;
        } else if (k == 21 || k == 22) {    /* damaged header */
            int id = R5.exp;
            n = build(d, id, port, msg, 0x300 + i, pl, 3); d[k == 21 ? 3 : 7] ^= 0x40;
            mc_op("receives data id %d with a damaged header%s", id, R5.sync ? "" : " while not synchronized");
            feed(d, n, 0, 0);
            mc_check(nacked(&from) == R5.sync, "a damaged header was answered by %d acknowledgements", nacked(&from));
            if (nacked(&from)) { ack_is(0, 0, 0, 0, 0, 0, EMBC_ERROR_SYNCHRONIZATION, "damaged header"); }
            R5.sync = 0;
        } else if (k == 23) {               /* damaged ack */
            uint8_t z = 0;
            n = build(d, 0x80 | R5.exp, port, msg, 0x1ff, &z, 1); d[8] ^= 0x20;
            mc_op("receives a damaged ack");
            feed(d, n, 0, 1);
            mc_check(nacked(&from) == 0, "a damaged acknowledgement was answered");
            R5.sync = 0;
        } else if (k == 24) {
            uint8_t z = (uint8_t) (i & 1 ? EMBC_ERROR_MESSAGE_INTEGRITY : 0);
            mc_op("receives an ack"); feed(d, build(d, 0x80 | R5.exp, port, msg, 0x1ff, &z, 1), 1, 0);
            mc_check(nacked(&from) == 0, "an acknowledgement was answered");
            R5.sync = 1;
        } else if (k == 25) {
            mc_op("receives data for port 77"); feed(d, build(d, R5.exp, 77, msg, 0, pl, 2), 1, 0);
            mc_check(nacked(&from) == 0, "a frame for a port that does not exist was acknowledged");
            R5.sync = 1;
        } else {
            if (!a->t_on) { mc_prune(); }
            fire(a);
            mc_check(nacked(&from) == 0, "an acknowledgement without a frame");
        }
    }
    int h = 0; for (int j = 1; j <= 8; ++j) { h = h * 2 + R5.hist[j]; }
    mc_state(mc_mix(R5.exp * 2 + R5.sync, h));
    while (a->nown) { hal_done(a, 0); }
    side_close(a);
}
/* ------------------------------------------------------------ ports, port 0 and counters (C08) */
#define QN 48
static struct {
    struct embc_framer_status_s st; int exp, pend[QN], npend, hist, sync;
    struct { int port, msg, pd, len; uint8_t d[256]; } q[QN]; int nq, ndel;      /* frames in arrival order; delivered */
    struct { int msg, pd, len; uint8_t d[256]; } rsp[QN]; int nrsp, ntx, nacked, out, retry;   /* expected responses */
    uint32_t reg; int nrx; int order[QN], norder, got;                          /* deliveries expected, seen */
} E;
static void e_rx(void * port, uint8_t port_id, uint8_t msg, uint16_t pd, struct embc_buffer_s * b) {
    mc_note("port %d receives message %d", port_id, msg);
    mc_check((intptr_t) port == port_id + 100, "a frame for port %d reached the handler of port %d", port_id, (int) (intptr_t) port - 100);
    mc_check(E.got < E.norder, "a delivery on port %d that was not expected", port_id);
    int i = E.order[E.got++];
    mc_check(E.q[i].port == port_id && E.q[i].msg == msg && E.q[i].pd == pd, "port %d message %d definition 0x%x delivered, not port %d message %d definition 0x%x", port_id, msg, pd, E.q[i].port, E.q[i].msg, E.q[i].pd);
    mc_check(embc_buffer_read_remaining(b) == E.q[i].len && 0 == memcmp(b->data + b->cursor, E.q[i].d, E.q[i].len), "port %d: the payload differs", port_id);
    embc_buffer_free(b);
}
static void e_deliver(void) {       /* the model delivers everything pending */
    for (int k = 0; k < E.npend; ++k) {
        int i = E.pend[k];
        ++E.st.rx_data_count;
        if (E.q[i].port == 0 && E.q[i].pd == EMBC_FRAMER_PORT0_PING_REQ) {
            E.rsp[E.nrsp].msg = E.q[i].msg; E.rsp[E.nrsp].pd = EMBC_FRAMER_PORT0_PING_RSP; E.rsp[E.nrsp].len = E.q[i].len; memcpy(E.rsp[E.nrsp++].d, E.q[i].d, E.q[i].len);
        } else if (E.q[i].port == 0 && E.q[i].pd == EMBC_FRAMER_PORT0_STATUS_REQ) {
            E.rsp[E.nrsp].msg = E.q[i].msg; E.rsp[E.nrsp].pd = EMBC_FRAMER_PORT0_STATUS_RSP; E.rsp[E.nrsp].len = sizeof(E.st); memcpy(E.rsp[E.nrsp++].d, &E.st, sizeof(E.st));
        } else if (E.reg & (1u << E.q[i].port)) { E.order[E.norder++] = i; }
    }
    E.npend = 0;
}
static void e_flush(int ack);
static void e_counters(void) {
    struct embc_framer_status_s s = embc_framer_status_get(S[0].f), w = E.st;
    w.version = s.version;
#define CNT(x) mc_check(s.x == w.x, "status " #x " is %u, not %u", (unsigned) s.x, (unsigned) w.x)
    CNT(rx_count); CNT(rx_data_count); CNT(rx_ack_count); CNT(rx_deduplicate_count); CNT(rx_synchronization_error); CNT(rx_mic_error); CNT(rx_frame_id_error); CNT(tx_count); CNT(tx_retransmit_count);
}
static void e_data(int rel, int port, int msg, int pd, int len) {     /* a valid data frame arrives */
    uint8_t d[300]; int id = (E.exp + rel) & 15;
    int i = E.nq++;
    mc_check(i < QN, "harness: too many frames");
    for (int j = 0; j < len; ++j) { E.q[i].d[j] = (uint8_t) (j * 31 + msg); }
    E.q[i].port = port; E.q[i].msg = msg; E.q[i].pd = pd; E.q[i].len = len;
    mc_op("receives data id %d%s, port %d message %d definition 0x%04x, %d bytes", id, rel == 15 ? " again" : rel ? " far off" : "", port, msg, pd, len);
    int n = build(d, id, port, msg, pd, E.q[i].d, len);
    ++E.st.rx_count; E.sync = 1;
    if (port > 15) { }
    else if (port == 0 && pd == EMBC_FRAMER_PORT0_RESYNC) { E.exp = (id + 1) & 15; E.hist = 7; E.npend = 0; }
    else {
        if (rel == 15 && (E.hist & 1)) { ++E.st.rx_deduplicate_count; }
        else if (rel == 0) { E.hist = (E.hist << 1 | 1) & 7; E.exp = (id + 1) & 15; E.pend[E.npend++] = i; }
        else { E.npend = 0; E.hist = 1; E.exp = (id + 1) & 15; E.pend[E.npend++] = i; ++E.st.rx_frame_id_error; }
        if (E.hist == 7) { e_deliver(); }
    }
    feed(d, n, 1, 0);
}
/* everything the framer has to transmit goes out; data frames must be the responses, in order; each is acknowledged if ack */
static void e_flush(int ack) {
    struct side * a = &S[0];
    for (int g = 0; g < 100 && a->nown; ++g) {
        struct own o = a->own[0];
        hal_done(a, 0);
        if (o.copy[1] & 0x80) { continue; }
        int i = o.copy[1], r = -1;
        for (int k = E.nacked; k < E.nacked + 3 && k < E.nrsp; ++k) { if ((k & 15) == i) { r = k; } }
        mc_check(r >= 0, "a data frame id %d on port %d definition 0x%02x%02x was transmitted, but no response is due", i, o.copy[2], o.copy[6], o.copy[5]);
        mc_check(o.copy[2] == 0 && (o.copy[5] | o.copy[6] << 8) == E.rsp[r].pd && o.copy[3] == E.rsp[r].msg, "response on port %d definition 0x%02x%02x message %d, not definition 0x%04x message %d", o.copy[2], o.copy[6], o.copy[5], o.copy[3], E.rsp[r].pd, E.rsp[r].msg);
        mc_check(o.copy[4] == E.rsp[r].len, "response of %d bytes, not %d", o.copy[4], E.rsp[r].len);
        int skip = E.rsp[r].pd == EMBC_FRAMER_PORT0_STATUS_RSP ? 4 : 0;     /* version */
        mc_check(0 == memcmp(o.copy + 8 + skip, E.rsp[r].d + skip, E.rsp[r].len - skip), skip ? "a counter of the status response differs from the events that occurred" : "the response carries another payload");
        if (r == E.ntx) { ++E.ntx; }
        if (ack && r == E.nacked) {
            uint8_t d[32], z = 0; mc_op("peer acks the response");
            ++E.st.rx_count; ++E.st.rx_ack_count; ++E.st.tx_count; ++E.nacked; E.sync = 1;
            feed(d, build(d, 0x80 | i, 0, 0, 0x100, &z, 1), 1, 0);
        }
    }
    int due = E.nrsp < E.nacked + 3 ? E.nrsp : E.nacked + 3;
    mc_check(E.ntx == due, "%d responses were transmitted, not %d", E.ntx, due);
    mc_check(E.got == E.norder, "%d of %d frames were delivered", E.got, E.norder);
}
static void ports_run(void) {
    props = P8; C.nomatch = 1; C.ooo = 1;
    script_start();
    struct side * a = &S[0];
    a->resyncs = 1;
    int regs = mc_choose(3), depth = mc_tier(3, 4);
    E.reg = regs == 0 ? 0xffff : regs == 1 ? 0x0006 : 0x5550;
    for (int p = 1; p < 16; ++p) { struct embc_framer_port_callbacks_s c = {0, 0, 0}; embc_framer_register_port_callbacks(a->f, (uint8_t) p, &c); }
    for (int p = 0; p < 16; ++p) { struct embc_framer_port_callbacks_s c = {(void *) (intptr_t) (100 + p), e_rx, 0}; if (E.reg & (1u << p)) { embc_framer_register_port_callbacks(a->f, (uint8_t) p, &c); } }
    if (mc_choose(2)) { e_data(5, 0, 0, EMBC_FRAMER_PORT0_RESYNC, 0); }
    for (int i = 0; i < depth; ++i) {
        static const int pds[] = {0, 1, 3, 5, 7, 8, 0xff, 0x108, 0xff00}, lens[] = {0, 1, 40, 239, 240};
        int k = mc_choose(i == depth - 1 ? 47 : 47), msg = 10 * i + 3, ack = 1;
        if (k < 16) { e_data(0, k, msg, k == 0 ? 8 : 4 + (k & 3), 1 + k); }
        else if (k < 25) { e_data(0, 0, msg, pds[k - 16], i * 3); }
        else if (k < 30) { e_data(0, 0, msg, EMBC_FRAMER_PORT0_PING_REQ, lens[k - 25]); ack = 1; }
        else if (k < 35) { e_data(0, 0, msg, EMBC_FRAMER_PORT0_STATUS_REQ, lens[k - 30]); }
        else if (k == 35) { e_data(0, 0, msg, EMBC_FRAMER_PORT0_PING_REQ, 5); ack = 0; }
        else if (k == 36) { e_data(0, 0, msg, EMBC_FRAMER_PORT0_STATUS_REQ, 1); ack = 0; }
        else if (k == 37) { e_data(0, 16, msg, 4, 2); }
        else if (k == 38) { e_data(0, 255, msg, 4, 2); }
        else if (k == 39) { e_data(7, 1, msg, 5, 2); }
        else if (k == 40) { e_data(3, 0, msg, EMBC_FRAMER_PORT0_RESYNC, 0); }
        else if (k == 41) { if (!(E.hist & 1)) { mc_prune(); } e_data(15, 2, msg, 5, 2); }
        else if (k == 42) { uint8_t d[64], z[2] = {1, 2}; mc_op("receives data with a damaged payload"); int n = build(d, E.exp, 1, msg, 4, z, 2); d[8] ^= 8; if (!E.sync) { mc_prune(); } ++E.st.rx_mic_error; E.sync = 0; feed(d, n, 0, 1); }
        else if (k == 43) { uint8_t d[64], z[2] = {1, 2}; mc_op("receives data with a damaged header"); int n = build(d, E.exp, 1, msg, 4, z, 2); d[3] ^= 8; if (!E.sync) { mc_prune(); } ++E.st.rx_synchronization_error; E.sync = 0; feed(d, n, 0, 0); }
        else if (k == 44) { uint8_t d[32], z = 0; mc_op("receives an ack of nothing"); ++E.st.rx_count; ++E.st.rx_ack_count; E.sync = 1; feed(d, build(d, 0x80 | ((E.nrsp + 4) & 15), 3, 0, 0x100, &z, 1), 1, 0); }
        else if (k == 45) {
            if (E.nacked >= E.ntx) { mc_prune(); }
            uint8_t d[32], z = EMBC_ERROR_MESSAGE_INTEGRITY; mc_op("peer nacks the response");
            ++E.st.rx_count; ++E.st.rx_ack_count; ++E.st.tx_retransmit_count; E.sync = 1;
            feed(d, build(d, 0x80 | (E.nacked & 15), 0, 0, 0x100, &z, 1), 1, 0);
            mc_check(a->nown == 1, "the response was not retransmitted");
        }
        else {
            if (!a->t_on) { mc_prune(); }
            int out = E.ntx - E.nacked;
            int rx = E.npend > 0, f0 = a->t_at > T + MS(300);
            if (rx && out) { mc_prune(); }      /* one kind of timeout at a time */
            if (rx) { e_deliver(); } else { E.st.tx_retransmit_count += out; }
            (void) f0;
            fire(a);
        }
        e_flush(ack);
        e_counters();
    }
    mc_state(mc_mix(mc_mix(E.st.rx_count * 32 + E.st.rx_data_count, E.exp * 8 + E.hist), E.nrsp * 16 + E.nacked));
    /* still operational */
    for (int i = 0; i < 3; ++i) { e_data(0, 0, 200 + i, EMBC_FRAMER_PORT0_PING_REQ, 3 + i); if (i == 2 && E.hist != 7) { e_deliver(); } e_flush(1); }
    e_data(0, 1, 222, 9, 9); e_flush(1);
    for (int i = 0; i < 400 && a->t_on; ++i) { if (E.npend) { e_deliver(); } E.st.tx_retransmit_count += E.ntx - E.nacked; fire(a); e_flush(1); }
    e_counters();
    mc_check(E.nacked == E.nrsp, "%d of %d responses were sent", E.nacked, E.nrsp);
    side_close(a);
}
static const struct mc_scenario c01[] = {
    {"one way", link_run, 2, 3, P1, 0}, {"wrap", link_run, 2, 3, P1|WRAP, 0}, {"both", link_run, 2, 3, P1|WRAP|BI, 0}, {"echo", link_run, 2, 3, P1|ECHO, 0}, {"sync", link_run, 2, 3, P1|SYNC, 0}, {"paced", link_run, 2, 3, P1|PACE|BI, 0}, {"chain", link_run, 2, 3, P1|CHAIN, 0}, {"late timers", link_run, 2, 3, P1|LATE|BI, 0}, {"late timers, wrap", link_run, 2, 3, P1|LATE|WRAP, 0}, {"long", link_run, 2, 3, P1|LONG, 0}, {"marathon", marathon_run, 0, 0, P1, 0}, {0}
};
static const struct mc_scenario c02[] = {
    {"one way", link_run, 2, 3, P2, 0}, {"both", link_run, 2, 3, P2|WRAP|BI, 0}, {"echo", link_run, 2, 3, P2|ECHO, 0}, {"sync", link_run, 2, 3, P2|SYNC|BI, 0}, {"late timers", link_run, 2, 3, P2|LATE|BI, 0}, {"late timers, chain", link_run, 2, 3, P2|LATE|CHAIN, 0}, {"script", script_run, 0, 0, P2, 0}, {"wrapped script", script_run, 0, 0, P2|1, 0}, {"chain", script_run, 0, 0, P2|2, 0}, {"exhaust", exhaust_run, 1, 2, P2, 0}, {"completions", complete_run, 0, 0, 0, 0}, {"every port", every_port_run, 0, 0, 0, 0}, {"marathon", marathon_run, 0, 0, P2, 0}, {0}
};
static const struct mc_scenario c06[] = {
    {"one way", link_run, 2, 3, P6, 0}, {"both", link_run, 2, 3, P6|WRAP|BI, 0}, {"sync", link_run, 2, 3, P6|SYNC|BI, 0}, {"late timers", link_run, 2, 3, P6|LATE|BI, 0}, {"script", script_run, 0, 0, P6, 0}, {"exhaust", exhaust_run, 1, 2, P6, 0}, {"buffers", buffers_run, 0, 0, 0, 0}, {"cb", buffers_run, 0, 0, 1, 0}, {"held", held_run}, {"shutdown", shutdown_run, 1, 1, P6, 0}, {"sync shutdown", shutdown_run, 1, 1, P6|SYNC, 0}, {"shutdown, two faults", shutdown_run, 2, 2, P6|CHAIN, 1}, {"marathon", marathon_run, 0, 0, P6, 0}, {0}
};
static const struct mc_scenario c07[] = {
    {"one way", link_run, 2, 3, P7, 0}, {"both", link_run, 2, 3, P7|WRAP|BI, 0}, {"chain", link_run, 2, 3, P7|CHAIN, 0}, {"sync", link_run, 2, 3, P7|SYNC|BI, 0}, {"late timers", link_run, 2, 3, P7|LATE|BI, 0}, {"late timers, chain", link_run, 2, 3, P7|LATE|CHAIN, 0}, {"late timers, sync", link_run, 2, 3, P7|LATE|SYNC|BI, 0}, {"long", link_run, 2, 3, P7|LONG, 0}, {"script", script_run, 0, 0, P7, 0}, {"wrapped script", script_run, 0, 0, P7|1, 0}, {"exhaust", exhaust_run, 1, 2, P7, 0}, {"shutdown", shutdown_run, 1, 1, P7, 0}, {"sync shutdown", shutdown_run, 1, 1, P7|SYNC, 0}, {"outage", outage_run, 0, 0, 0, 0}, {"marathon", marathon_run, 0, 0, P7, 0}, {0}
};
static const struct mc_scenario c03[] = { {"streams", stream_run, 0, 0, 0, 0}, {"deep", stream_run, 0, 0, 4, -1}, {"deeper", stream_run, 0, 0, 5, 1}, {"long streams", long_stream_run, 0, 0, 0, 0}, {0} };
static const struct mc_scenario c04[] = { {"layout", layout_run, 0, 0, 0, 0}, {"damage", damage_run, 0, 0, 0, 0}, {0} };
static const struct mc_scenario c05[] = { {"acks", truth_run, 0, 0, 0, 0}, {0} };
static const struct mc_scenario c08[] = { {"ports", ports_run, 0, 0, 0, 0}, {"marathon", marathon_run, 0, 0, P8, 0}, {0} };
const struct mc_property mc_properties[] = {
    {"C01", c01},
    {"C02", c02},
    {"C03", c03},
    {"C04", c04},
    {"C05", c05},
    {"C08", c08},
    {"C06", c06},
    {"C07", c07},
    {0}
};
