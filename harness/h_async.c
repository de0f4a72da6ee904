/* Asynchronous streams: source (C38), sink (C39), source connected to sink (C40). */
#include "two.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "embc/cdef.h"
#include "embc/ec.h"
#include "embc/stream/async.h"
#include "embc/stream/async_source.h"
#include "embc/stream/async_sink.h"
typedef struct embc_stream_transaction_s tr;

static uint8_t small_data[2][64], * data[2];
static void data_init(void) { data[0] = small_data[0]; data[1] = small_data[1]; for (int i = 0; i < 64; ++i) { data[0][i] = (uint8_t) (i * 3 + 1); data[1][i] = (uint8_t) (0xf0 - i * 5); } }

/* transfers larger than the 8 and 16 bit limits */
static const int big_len[] = {65536, 255, 256, 300, 65535, 65537, 70000, 131073};
static const int big_block[] = {0, 255, 256, 257, 300, 4096, 32768, 65535};
static void data_big(int n) {
    for (int k = 0; k < 2; ++k) { data[k] = mc_malloc(n); uint32_t x = 77u + k; for (int i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; data[k][i] = (uint8_t) (x >> 24); } }
}
static void data_free(void) { mc_free(data[0]); mc_free(data[1]); }

/* ------------------------------------------------------------ C38 */
static struct {
    struct embc_stream_source_s src;
    struct embc_stream_consumer_s con;
    enum { IDLE, OPENING, OPEN, CLOSING } st;
    int d, len, tx, acked, outstanding;             /* model of the transfer */
    int x_open, x_write, x_close, x_done;           /* what the source must do now: -1 nothing, otherwise a status */
    tr req;                                         /* the write request being served */
    int cap;                                        /* largest write allowed now */
    struct { tr t; int off; } q[16]; int nq;
    uint8_t * reqbuf[16]; int nreq;
    int opens, dones, nested, seq;
    void * open_ptr; uint16_t open_len;
    uint8_t * tbuf; int tlen;
    int big_len; uint8_t * big_buf;
} S;
static void deliver(int status);
static int is_idle(void) { return S.x_open < 0 && S.x_write < 0 && S.x_close < 0 && S.x_done < 0; }
static void src_open(void) {
    static uint8_t extra[4];
    int again = S.opens && mc_choose(2);        /* the same data again, without another configure */
    if (!again) { S.d = S.opens & 1; S.len = S.big_len ? S.big_len : 1 + (S.opens ? 2 : mc_choose(mc_tier(5, 6))); }
    S.opens++;
    int ex = S.opens & 1;
    S.open_ptr = ex ? extra : 0; S.open_len = ex ? 4 : 0;
    S.tx = S.acked = S.outstanding = 0; S.st = OPENING; S.x_open = 0;
    mc_op(again ? "open again, %d bytes" : "configure %d bytes, open", S.len);
    extern void src_done(void *, uint8_t);
    if (!again) embc_stream_source_configure(&S.src, data[S.d], S.len, src_done, &S);
    if (ex) { embc_stream_source_open_ex(&S.src, extra, 4); } else { embc_stream_source_open(&S.src); }
    mc_check(S.x_open < 0, "open was not sent");
}
void src_done(void * ud, uint8_t status) {
    mc_check(ud == &S, "done with the wrong user data");
    mc_check(S.x_done >= 0, "unexpected done callback with status %d", status);
    mc_check(status == S.x_done, "done with status %d, expected %d", status, S.x_done);
    S.x_done = -1; ++S.dones;
    if (S.nested == 2 && S.opens < 2 && mc_choose(2)) { mc_note("reopen in the done callback"); src_open(); }
}
static void con_send(struct embc_stream_consumer_s * self, tr * t) {
    mc_check(self == &S.con, "consumer called with another instance");
    int off = 0;
    switch (t->type) {
        case EMBC_STREAM_IOCTL_OPEN:
            mc_check(S.x_open >= 0, "unexpected open"); S.x_open = -1;
            mc_check(t->length == S.open_len && t->data.ptr == S.open_ptr && t->status == 0, "open carries other data");
            break;
        case EMBC_STREAM_IOCTL_WRITE:
            mc_check(S.x_write >= 0, "a write that was not requested, in state %d", S.st); S.x_write = -1;
            mc_check(t->length > 0 && t->length <= S.cap, "a write of %d bytes, at most %d allowed", t->length, S.cap);
            mc_check(t->length <= S.len - S.tx, "a write past the end of the data");
            if (S.req.length) {
                int want = S.req.length < S.len - S.tx ? S.req.length : S.len - S.tx;
                mc_check(t->length == want && t->data.ioctl_write.ptr == S.req.data.event_write_request_consumer_buffer.ptr, "the requested block of %d was written with %d bytes or elsewhere", want, t->length);
            }
            mc_check(t->status == 0 && t->consumer_transaction_id == S.req.consumer_transaction_id, "write with another status or transaction id");
            mc_check(0 == memcmp(t->data.ioctl_write.ptr, data[S.d] + S.tx, t->length), "the write at %d has other bytes", S.tx);
            off = S.tx; S.tx += t->length; ++S.outstanding;
            break;
        case EMBC_STREAM_IOCTL_CLOSE:
            mc_check(S.x_close >= 0, "unexpected close"); mc_check(t->status == S.x_close, "close with status %d, expected %d", t->status, S.x_close);
            S.x_close = -1; S.st = CLOSING;
            break;
        default: mc_fail("unexpected transaction type %d", t->type);
    }
    mc_check(S.nq < 16, "too many transactions outstanding");
    S.q[S.nq].t = *t; S.q[S.nq].off = off; ++S.nq;
    if (S.nq == 1 && (S.nested == 1 || (S.nested == 2 && mc_choose(2)))) { deliver(0); }
}
static void deliver(int status) {       /* the consumer responds to its oldest pending request */
    tr t = S.q[0].t; int off = S.q[0].off;
    --S.nq; memmove(&S.q[0], &S.q[1], sizeof(S.q[0]) * S.nq);
    mc_op("respond to %s with status %d", t.type == EMBC_STREAM_IOCTL_OPEN ? "open" : t.type == EMBC_STREAM_IOCTL_WRITE ? "write" : "close", status);
    t.status = (uint8_t) (t.type == EMBC_STREAM_IOCTL_CLOSE && !status ? t.status : status);
    switch (t.type) {
        case EMBC_STREAM_IOCTL_OPEN: if (S.st == OPENING) { if (status) { S.st = IDLE; S.x_done = status; } else { S.st = OPEN; t.file_id = 1; } } break;
        case EMBC_STREAM_IOCTL_WRITE:
            mc_check(0 == memcmp(t.data.ioctl_write.ptr, data[S.d] + off, t.length), "write data changed before it was acknowledged");
            --S.outstanding;
            if (S.st == OPEN) {
                if (status) { S.x_close = status; }
                else { S.acked += t.length; if (S.acked >= S.len) { S.x_close = 0; } }
            }
            break;
        case EMBC_STREAM_IOCTL_CLOSE: S.x_done = t.status; S.st = IDLE; break;
    }
    struct embc_stream_producer_s * p = embc_stream_source_get_producer(&S.src);
    p->send(p, &t);
    mc_check(is_idle(), "missing reaction: %s", S.x_close >= 0 ? "close" : S.x_done >= 0 ? "done callback" : "write");
}
static void event(int type) {
    tr t; memset(&t, 0, sizeof(t)); t.type = (uint8_t) type;
    struct embc_stream_producer_s * p = embc_stream_source_get_producer(&S.src);
    p->send(p, &t);
    mc_check(is_idle(), "missing reaction to event %d", type);
}
static void request(int size, int mtu) {
    memset(&S.req, 0, sizeof(S.req));
    S.req.type = EMBC_STREAM_EVENT_WRITE_REQUEST; S.req.file_id = 1;
    mc_op("write request, %s %d", size ? "block of" : "mtu", size ? size : mtu);
    if (size) {
        uint8_t * b = S.big_buf; if (!b) { b = mc_malloc(size); S.reqbuf[S.nreq++] = b; }
        S.req.consumer_transaction_id = (uint8_t) (1 + S.nreq); S.req.length = (uint16_t) size;
        S.req.data.event_write_request_consumer_buffer.ptr = b; S.cap = size;
    } else {
        S.req.data.event_write_request_producer_buffer.mtu = (uint16_t) mtu; S.req.data.event_write_request_producer_buffer.transactions_max = 1;
        S.cap = S.tlen ? S.tlen : (int) sizeof(void *); if (mtu && mtu < S.cap) { S.cap = mtu; }
    }
    if (S.st == OPEN && S.tx < S.len) { S.x_write = 0; }
    tr t = S.req;
    struct embc_stream_producer_s * p = embc_stream_source_get_producer(&S.src);
    p->send(p, &t);
    mc_check(is_idle(), "a write request was not served");
}
static void source_run(void) {
    data_init();
    S.nested = mc_arg; S.x_open = S.x_write = S.x_close = S.x_done = -1;
    S.con.send = con_send;
    static const int tl[] = {0, 1, 3};
    S.tlen = tl[mc_choose(3)]; S.tbuf = S.tlen ? mc_malloc(S.tlen) : 0;
    memset(&S.src, 0xa5, sizeof(S.src));
    embc_stream_source_initialize(&S.src, S.tbuf, (uint16_t) S.tlen);
    embc_stream_source_set_consumer(&S.src, &S.con);
    if (mc_dev(2)) { mc_note("before open"); request(2, 0); event(EMBC_STREAM_EVENT_ABORT); }
    src_open();
    int steps = S.nested == 2 ? mc_tier(12, 14) : mc_tier(16, 20), extras = 0;
    for (int i = 0; i < steps; ++i) {
        if (S.st == IDLE && !S.nq && S.opens >= 2) { break; }
        mc_state(mc_mix(mc_mix(mc_mix(mc_mix(mc_mix(S.st, S.tx), S.acked), S.nq), S.len * 4 + S.tlen), S.dones));
        /* regular moves: respond, request; deviations: errors, aborts, stray events */
        int can_req = S.st == OPEN && S.tx < S.len && S.nreq < 12, can_prod = can_req && !S.outstanding, can_rsp = S.nq > 0, can_open = S.st == IDLE && !S.nq && S.opens < 2;
        int n = 0, m[8];
        if (can_rsp) { m[n++] = 0; }
        if (can_req) { m[n++] = 1; if (S.nested != 2) { m[n++] = 2; } }
        if (can_prod) { m[n++] = 3; if (S.nested != 2) { m[n++] = 4; } }
        if (can_open) { m[n++] = 5; }
        if (!n) { break; }
        int dev = mc_dev(5);
        if (dev) { extras++; }
        switch (dev) {
            case 1: if (!can_rsp) { mc_prune(); } deliver(7); continue;
            case 2: mc_op("abort"); if (S.st == OPEN || S.st == OPENING) { S.x_close = EMBC_ERROR_ABORTED; } event(EMBC_STREAM_EVENT_ABORT); continue;
            case 3: if (S.st == OPEN && S.tx < S.len) { mc_op("noop, connect, disconnect"); event(EMBC_STREAM_EVENT_NOOP); event(EMBC_STREAM_EVENT_CONNECT); event(EMBC_STREAM_EVENT_DISCONNECT); } else { mc_prune(); } continue;
            case 4: if (S.st == OPEN && S.tx < S.len) { mc_prune(); } if (S.st == OPENING || S.nreq > 12) { mc_prune(); } request(mc_choose(2) ? 2 : 0, 4); continue;     /* a request when there is nothing to send */
        }
        int k = m[n > 1 ? mc_choose(n) : 0];
        switch (k) {
            case 0: deliver(S.q[0].t.type == EMBC_STREAM_IOCTL_OPEN && S.st != OPENING && mc_choose(2) ? 7 : 0); break;
            case 1: request(2, 0); break;
            case 2: request(S.nreq & 1 ? 1 : 5, 0); break;
            case 3: request(0, 2); break;
            case 4: request(0, S.nreq & 1 ? 0 : 16); break;
            case 5: src_open(); break;
        }
    }
    while (S.nq) { deliver(0); }
    if (S.acked >= S.len) { mc_check(S.st == IDLE, "complete, but not closed"); }
    mc_check(S.st != IDLE || S.dones == S.opens, "%d transfers ended, done called %d times", S.opens, S.dones);
    for (int i = 0; i < S.nreq; ++i) { mc_free(S.reqbuf[i]); }
    if (S.tbuf) { mc_free(S.tbuf); }
}
static void source_big_run(void) {
    S.big_len = big_len[mc_choose(8)]; S.tlen = big_block[mc_choose(8)]; S.nested = mc_choose(2);
    data_big(131073); S.x_open = S.x_write = S.x_close = S.x_done = -1; S.con.send = con_send;
    int kind = mc_choose(3), size = kind == 2 ? 0 : big_block[1 + mc_choose(7)];
    S.tbuf = S.tlen ? mc_malloc(S.tlen) : 0; if (kind == 0) { S.big_buf = mc_malloc(size); }
    embc_stream_source_initialize(&S.src, S.tbuf, (uint16_t) S.tlen);
    embc_stream_source_set_consumer(&S.src, &S.con);
    for (int k = 0; k < 2; ++k) {
        src_open();
        if (S.nq) { deliver(0); }
        for (int n = 0; S.st == OPEN && S.tx < S.len; ++n) {
            mc_check(n <= S.len, "no progress");
            if (kind == 0) { request(size, 0); } else { request(0, size); }
            if (S.nq) { deliver(0); }
        }
        while (S.nq) { deliver(0); }
        mc_check(S.st == IDLE && S.acked == S.len && S.dones == S.opens, "a transfer of %d bytes ended after %d, done called %d times", S.len, S.acked, S.dones);
    }
    if (S.tbuf) { mc_free(S.tbuf); } if (S.big_buf) { mc_free(S.big_buf); }
    data_free();
}
static void source_misuse_run(void) {
    static uint8_t b[4];
    mc_op("invalid arguments");
    mc_check(MC_FATAL(embc_stream_source_initialize(0, b, 4)) && MC_FATAL(embc_stream_source_configure(&S.src, 0, 4, 0, 0)) && MC_FATAL(embc_stream_source_configure(&S.src, b, 0, 0, 0)) && MC_FATAL(embc_stream_source_configure(0, b, 4, 0, 0))
        && MC_FATAL(embc_stream_source_set_consumer(0, &S.con)) && MC_FATAL(embc_stream_source_get_producer(0)), "invalid arguments were accepted");
}
/* two sources: the data of a write stays valid until its response */
static struct embc_stream_source_s t_src[2]; static struct embc_stream_consumer_s t_con[2]; static tr t_q[2][8]; static int t_nq[2]; static uint8_t t_buf[2][4];
static void t_src_done(void * ud, uint8_t st) { mc_check(ud == &t_src[two_i], "done of the other source"); two_put(9000 + st); }
static void t_con_send(struct embc_stream_consumer_s * c, tr * t) {
    mc_check(c == &t_con[two_i], "sent to the other consumer"); mc_check(t_nq[two_i] < 8, "too many transactions");
    two_put(t->type); two_put(t->status); two_put(t->length);
    t_q[two_i][t_nq[two_i]++] = *t;
}
static void t_src_step(int i, int s, int k) {
    static const char ops[][8] = {"orwwww", "owrwrw", "oraWwW"};    /* o: open, r: respond or request, w, W: the same, a: request after an abort */
    static uint8_t rb[2][8];
    struct embc_stream_producer_s * p;
    if (k == 0) {
        embc_stream_source_initialize(&t_src[i], s == 1 ? t_buf[i] : 0, s == 1 ? 3 : 0);
        t_con[i].send = t_con_send; t_nq[i] = 0;
        embc_stream_source_set_consumer(&t_src[i], &t_con[i]);
        embc_stream_source_configure(&t_src[i], data[i], 9 + i, t_src_done, &t_src[i]);
        return;
    }
    if (k == 7) { return; }
    p = embc_stream_source_get_producer(&t_src[i]);
    char c = ops[s][k - 1];
    if (c == 'o') { embc_stream_source_open(&t_src[i]); return; }
    if (t_nq[i]) {
        tr t = t_q[i][0]; --t_nq[i]; memmove(&t_q[i][0], &t_q[i][1], sizeof(tr) * t_nq[i]);
        if (t.type == EMBC_STREAM_IOCTL_WRITE) { two_bytes(t.data.ioctl_write.ptr, t.length); }
        p->send(p, &t);
        if (c == 'r') { return; }
    }
    tr t; memset(&t, 0, sizeof(t));
    t.type = c == 'a' ? EMBC_STREAM_EVENT_ABORT : EMBC_STREAM_EVENT_WRITE_REQUEST;
    if (c == 'W') { t.length = 4; t.data.event_write_request_consumer_buffer.ptr = rb[i]; }
    p->send(p, &t);
}
static void t_src_run(void) { static const struct two_s w = {3, 8, t_src_step}; data_init(); two_run_(&w); }
static void source_null_run(void) {
    struct embc_stream_source_s a; uint8_t buf[8]; volatile bool f = 0; void * volatile p = 0; tr t; memset(&t, 0, sizeof(t));
    embc_stream_source_initialize(&a, buf, 8);
    struct embc_stream_producer_s * prod = embc_stream_source_get_producer(&a);
    volatile int k = mc_choose(7);
    mc_op("null contract %d", k);
    switch (k) {
        case 0: f = MC_FATAL(embc_stream_source_initialize(0, buf, 8)); break;
        case 1: f = MC_FATAL(embc_stream_source_set_consumer(0, 0)); break;
        case 2: f = MC_FATAL(p = embc_stream_source_get_producer(0)); break;
        case 3: f = MC_FATAL(embc_stream_source_configure(0, buf, 8, 0, 0)); break;
        case 4: f = MC_FATAL(embc_stream_source_configure(&a, 0, 8, 0, 0)); break;
        case 5: f = MC_FATAL(embc_stream_source_configure(&a, buf, 0, 0, 0)); break;
        default: f = MC_FATAL(prod->send(0, &t)); break;
    }
    (void) p;
    mc_check(f, "an invalid argument was accepted (%d)", k);
    mc_state(k);
}
static const struct mc_scenario c38[] = {
    {"null", source_null_run},
    {"two sources", t_src_run, 0, 0, 0, 0},
    {"immediate responses", source_run, 2, 3, 1, 0}, {"deferred responses", source_run, 1, 2, 0, 0}, {"mixed responses", source_run, 0, 1, 2, 0}, {"large transfers", source_big_run, 0, 0, 0, 0}, {"misuse", source_misuse_run, 0, 0, 0, 0}, {0}
};

/* ------------------------------------------------------------ C39 */
#define G 8
static struct {
    struct embc_stream_sink_s sink;
    struct embc_stream_producer_s prod;
    uint8_t area[2][32]; uint8_t model[2][32];
    int dst, cap, open, off, wfn, done_set;
    int resp[8], nresp, ev[8], nev, order_bad;
    tr last_resp, last_req;
    int n_done; uint32_t done_len; uint8_t const * done_buf; int n_write; uint8_t const * w_ptr; uint32_t w_len;
    uint8_t tb[8]; int tlen;
} K;
static void prod_send(struct embc_stream_producer_s * self, tr * t) {
    mc_check(self == &K.prod, "producer called with another instance");
    if (t->type < 128) { mc_check(K.nresp < 8, "too many responses"); K.resp[K.nresp++] = t->type; K.last_resp = *t; if (K.nev) { K.order_bad = 1; } }
    else { mc_check(K.nev < 8, "too many events"); K.ev[K.nev++] = t->type; if (t->type == EMBC_STREAM_EVENT_WRITE_REQUEST) { K.last_req = *t; } mc_check(K.open, "event %d while closed", t->type); }
}
static void sink_done(void * ud, uint8_t const * b, uint32_t n) { mc_check(ud == &K, "done with other user data"); ++K.n_done; K.done_buf = b; K.done_len = n; }
static void sink_write(void * ud, uint8_t const * b, uint32_t n) { mc_check(ud == &K.wfn, "write callback with other user data"); ++K.n_write; K.w_ptr = b; K.w_len = n; }
static void step_begin(void) { K.nresp = K.nev = K.order_bad = K.n_done = K.n_write = 0; }
static void one_response(int type, const char * what) { mc_check(K.nresp == 1 && K.resp[0] == type, "%s: %d responses", what, K.nresp); }
static void request_ok(void) {
    if (K.tlen) { mc_check(K.last_req.length == K.tlen && K.last_req.data.event_write_request_consumer_buffer.ptr == K.tb && K.last_req.consumer_transaction_id, "write request without the transaction buffer"); }
    else { mc_check(K.last_req.length == 0 && K.last_req.data.event_write_request_producer_buffer.mtu > 0 && K.last_req.data.event_write_request_producer_buffer.transactions_max >= 1, "write request without a size"); }
}
static void areas(void) { mc_check(0 == memcmp(K.area, K.model, sizeof(K.area)), "the buffer contents differ from the acknowledged writes"); }
static void sink_msg(tr * t) { struct embc_stream_consumer_s * c = embc_stream_sink_get_consumer(&K.sink); c->send(c, t); }
static void sink_run(void) {
    data_init();
    int illegal = mc_arg & 1, seq = 0;
    K.prod.send = prod_send; K.dst = -1;
    memset(K.area, 0xcc, sizeof(K.area)); memset(K.model, 0xcc, sizeof(K.model)); memset(&K.sink, 0xa5, sizeof(K.sink));
    K.tlen = mc_choose(2) ? 5 : 0;
    embc_stream_sink_initialize(&K.sink, K.tlen ? K.tb : 0, (uint16_t) K.tlen);
    embc_stream_sink_set_producer(&K.sink, &K.prod);
    if (mc_choose(2)) { step_begin(); K.dst = 0; K.cap = 5; K.done_set = 1; mc_op("receive into 5 bytes"); embc_stream_sink_receive(&K.sink, K.area[0] + G, 5, sink_done, &K); mc_check(!K.nev && !K.nresp, "event before open"); }
    int depth = mc_tier(6, 7);
    for (int i = 0; i < depth; ++i) {
        tr t; memset(&t, 0, sizeof(t));
        int op = mc_choose(illegal ? 6 : 10);
        step_begin();
        switch (op) {
            case 0: {
                mc_op("open"); t.type = EMBC_STREAM_IOCTL_OPEN; K.open = 1; K.off = 0; sink_msg(&t);
                one_response(EMBC_STREAM_IOCTL_OPEN, "open"); mc_check(K.last_resp.status == 0 && !K.order_bad, "open response status %d", K.last_resp.status);
                mc_check(K.nev == 1 && K.ev[0] == (K.dst >= 0 ? EMBC_STREAM_EVENT_WRITE_REQUEST : EMBC_STREAM_EVENT_DISCONNECT), "events after open: %d, first %d", K.nev, K.ev[0]);
                if (K.dst >= 0) { request_ok(); }
                break; }
            case 1: case 2: case 3: case 4: {
                static const int sizes[] = {1, 3, 0, 6};
                if (!K.open && !illegal) { mc_prune(); }
                int n = sizes[op - 1]; uint8_t * p = mc_malloc(n ? n : 1); memcpy(p, data[seq & 1] + (seq * 3) % 32, n); ++seq;
                mc_op("write %d bytes%s", n, K.open ? "" : " while closed"); t.type = EMBC_STREAM_IOCTL_WRITE; t.length = (uint16_t) n; t.data.ioctl_write.ptr = p;
                int fits = K.dst >= 0 && K.off + n <= K.cap;
                sink_msg(&t);
                one_response(EMBC_STREAM_IOCTL_WRITE, "write");
                int ok = K.last_resp.status == 0;
                if (K.open) {
                    if (K.dst >= 0) { mc_check(ok == fits, "a write of %d bytes at %d of %d was answered with status %d", n, K.off, K.cap, K.last_resp.status); }
                    else if (K.wfn) { mc_check(ok, "a write for the callback was refused"); }
                    else { mc_check(!ok, "a write that is stored nowhere was acknowledged"); }
                    mc_check(K.n_write == (K.wfn ? 1 : 0) && (!K.wfn || (K.w_ptr == p && K.w_len == (uint32_t) n)), "write callback called %d times", K.n_write);
                    if (ok && K.dst >= 0) { memcpy(K.model[K.dst] + G + K.off, p, n); K.off += n; }
                    mc_check(!K.order_bad && K.nev <= 1 && (!K.nev || K.ev[0] == EMBC_STREAM_EVENT_WRITE_REQUEST), "%d events after a write", K.nev);
                    if (K.dst >= 0 && ok) { mc_check(K.nev == 1, "no write request after a write"); request_ok(); }
                    areas();
                } else {        /* not a valid sequence: nothing outside the buffers, and nothing acknowledged but not stored */
                    for (int a = 0; a < 2; ++a) { for (int k = 0; k < 32; ++k) { if (!(a == K.dst && k >= G && k < G + K.cap)) { mc_check(K.area[a][k] == K.model[a][k], "a write while closed changed byte %d of another area", k); } } }
                    if (ok && n) { int found = 0; if (K.dst >= 0) { for (int k = G; k + n <= G + K.cap; ++k) { found |= 0 == memcmp(K.area[K.dst] + k, p, n); } } mc_check(found || K.wfn, "a write while closed was acknowledged but stored nowhere"); }
                    memcpy(K.model, K.area, sizeof(K.model)); K.off = -1;
                    mc_free(p); return;         /* no claim about what follows */
                }
                mc_free(p); break; }
            case 5: {
                if (!K.open && !illegal) { mc_prune(); }
                int st = mc_choose(2) ? 9 : 0;
                mc_op("close with status %d%s", st, K.open ? "" : " while closed"); t.type = EMBC_STREAM_IOCTL_CLOSE; t.status = (uint8_t) st;
                int was = K.open; K.open = 0; sink_msg(&t);
                one_response(EMBC_STREAM_IOCTL_CLOSE, "close"); mc_check(K.last_resp.status == st, "close response status %d, expected %d", K.last_resp.status, st);
                if (was) { mc_check(K.n_done == (K.done_set ? 1 : 0), "done callback called %d times", K.n_done); if (K.done_set) { mc_check(K.done_len == (uint32_t) K.off && K.done_buf == (K.dst >= 0 ? K.area[K.dst] + G : 0), "done with %u bytes, expected %d", K.done_len, K.off); } }
                mc_check(K.nev == 0, "event after close"); areas();
                break; }
            case 6: {
                int ty = mc_choose(3); static const int types[] = {EMBC_STREAM_IOCTL_NOOP, EMBC_STREAM_IOCTL_FLUSH, EMBC_STREAM_IOCTL_CUSTOM + 1};
                mc_op("ioctl %d", types[ty]); t.type = (uint8_t) types[ty]; sink_msg(&t);
                if (ty < 2) { one_response(types[ty], "noop or flush"); mc_check(K.last_resp.status == 0, "noop or flush status %d", K.last_resp.status); }
                else { mc_check(K.nresp <= 1, "responses to an unknown request"); }
                mc_check(!K.nev && !K.n_done && !K.n_write, "side effect of a request without one"); areas();
                break; }
            case 7: case 8: {
                int had = K.dst >= 0, a = op == 7 ? mc_choose(2) : -1; int nc = a ? 3 : 5;
                mc_op("receive into %s", a < 0 ? "nothing" : a ? "buffer 1" : "buffer 0");
                K.dst = a; K.cap = a < 0 ? 0 : nc; K.off = 0; K.done_set = 1;
                embc_stream_sink_receive(&K.sink, a < 0 ? 0 : K.area[a] + G, K.cap, sink_done, &K);
                mc_check(K.nresp == 0 && !K.n_done, "response to nothing");
                if (K.open && !had && a >= 0) { mc_check(K.nev == 2 && K.ev[0] == EMBC_STREAM_EVENT_CONNECT && K.ev[1] == EMBC_STREAM_EVENT_WRITE_REQUEST, "%d events when a buffer arrives", K.nev); request_ok(); }
                else if (K.open && had && a < 0) { mc_check(K.nev == 1 && K.ev[0] == EMBC_STREAM_EVENT_DISCONNECT, "%d events when the buffer leaves", K.nev); }
                else { mc_check(K.nev == 0, "%d events for a change of buffer", K.nev); }
                areas(); break; }
            case 9: K.wfn = !K.wfn; mc_op("%s write callback", K.wfn ? "set" : "clear"); embc_stream_sink_set_write_fn(&K.sink, K.wfn ? sink_write : 0, K.wfn ? &K.wfn : 0); mc_check(!K.nev && !K.nresp, "side effect"); break;
        }
        mc_state(mc_mix(mc_mix(mc_mix(K.open, K.dst + 1), K.off), K.wfn * 2 + (K.tlen > 0)));
    }
}
static void sink_fill_run(void) {       /* every way to fill a buffer */
    data_init();
    K.prod.send = prod_send; K.dst = 0; K.done_set = 1;
    memset(K.area, 0xcc, sizeof(K.area)); memset(K.model, 0xcc, sizeof(K.model));
    K.tlen = 0; K.cap = mc_choose(mc_tier(10, 13));
    embc_stream_sink_initialize(&K.sink, 0, 0); embc_stream_sink_set_producer(&K.sink, &K.prod);
    embc_stream_sink_receive(&K.sink, K.area[0] + G, K.cap, sink_done, &K);
    tr t; memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_IOCTL_OPEN; K.open = 1; step_begin(); sink_msg(&t);
    int sent = 0, n;
    while ((n = mc_choose(5)) && sent < 14) {
        memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_IOCTL_WRITE; t.length = (uint16_t) n; t.data.ioctl_write.ptr = data[0] + sent;
        mc_op("write %d", n); step_begin(); sink_msg(&t); one_response(EMBC_STREAM_IOCTL_WRITE, "write");
        mc_check((K.last_resp.status == 0) == (K.off + n <= K.cap), "%d bytes at %d of %d: status %d", n, K.off, K.cap, K.last_resp.status);
        if (K.off + n <= K.cap) { memcpy(K.model[0] + G + K.off, data[0] + sent, n); K.off += n; }
        sent += n; areas();
    }
    memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_IOCTL_CLOSE; step_begin(); K.open = 0;
    embc_stream_close(embc_stream_sink_get_consumer(&K.sink), 1, 3);
    one_response(EMBC_STREAM_IOCTL_CLOSE, "close"); mc_check(K.last_resp.status == 3 && K.last_resp.file_id == 1 && K.n_done == 1 && K.done_len == (uint32_t) K.off, "close");
}
static void sink_big_run(void) {       /* sizes beyond 8 and 16 bits, writes of any size, full and overfull */
    int cap = big_len[mc_choose(8)], block = big_block[1 + mc_choose(7)]; K.tlen = big_block[mc_choose(8)];
    data_big(140000); uint8_t * dst = mc_malloc(cap), * tb = K.tlen ? mc_malloc(K.tlen) : 0;
    K.prod.send = prod_send; K.dst = 0; K.done_set = 1; int wfn = mc_choose(2);
    embc_stream_sink_initialize(&K.sink, tb, (uint16_t) K.tlen); embc_stream_sink_set_producer(&K.sink, &K.prod);
    if (wfn) { embc_stream_sink_set_write_fn(&K.sink, sink_write, &K.wfn); }
    for (int k = 0; k < 2; ++k) {
        embc_stream_sink_receive(&K.sink, dst, cap, sink_done, &K);
        tr t; memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_IOCTL_OPEN; K.open = 1; K.off = 0; step_begin(); sink_msg(&t);
        mc_op("open, capacity %d, writes of %d", cap, block);
        for (int n = 0; n < 4;) {       /* to the end, then with smaller writes */
            int len = n ? (n == 1 && cap - K.off ? cap - K.off : 1) : block;
            memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_IOCTL_WRITE; t.length = (uint16_t) len; t.data.ioctl_write.ptr = data[k] + K.off; t.consumer_transaction_id = 9;
            step_begin(); sink_msg(&t); one_response(EMBC_STREAM_IOCTL_WRITE, "write");
            int fits = K.off + len <= cap;
            mc_check((K.last_resp.status == 0) == fits, "%d bytes at %d of %d: status %d", len, K.off, cap, K.last_resp.status);
            mc_check(K.last_resp.length == len && K.last_resp.consumer_transaction_id == 9, "the response has length %d, not %d", K.last_resp.length, len);
            mc_check(K.n_write == wfn && (!wfn || (K.w_ptr == data[k] + K.off && K.w_len == (uint32_t) len)), "write callback called %d times, with %u bytes", K.n_write, K.w_len);
            if (fits) {
                mc_check(K.nev == 1 && K.ev[0] == EMBC_STREAM_EVENT_WRITE_REQUEST, "no write request after a write");
                if (K.tlen) { mc_check(K.last_req.length == K.tlen && K.last_req.data.event_write_request_consumer_buffer.ptr == tb, "the write request has length %d, not %d", K.last_req.length, K.tlen); }
                K.off += len;
            }
            if (!fits || n) { ++n; }
        }
        mc_check(0 == memcmp(dst, data[k], K.off), "the buffer differs from the acknowledged writes");
        memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_IOCTL_CLOSE; step_begin(); K.open = 0; sink_msg(&t);
        mc_check(K.n_done == 1 && K.done_len == (uint32_t) K.off && K.done_buf == dst, "done with %u bytes, expected %d", K.done_len, K.off);
    }
    mc_free(dst); if (tb) { mc_free(tb); }
    data_free();
}
static void sink_misuse_run(void) {
    mc_op("null arguments");
    mc_check(MC_FATAL(embc_stream_sink_initialize(0, 0, 0)) && MC_FATAL(embc_stream_sink_set_producer(0, 0)) && MC_FATAL(embc_stream_sink_get_consumer(0)) && MC_FATAL(embc_stream_sink_receive(0, 0, 0, 0, 0)) && MC_FATAL(embc_stream_sink_set_write_fn(0, 0, 0)), "null was accepted");
}
/* two sinks */
static struct embc_stream_sink_s t_sink[2]; static struct embc_stream_producer_s t_prod[2]; static uint8_t t_kb[2][4], t_dst[2][24]; static uint8_t * t_req[2];
static void t_sink_done(void * ud, uint8_t const * b, uint32_t n) { mc_check(ud == &t_sink[two_i] && b == t_dst[two_i], "done of the other sink"); two_put(8000); two_bytes(b, (int) n); }
static void t_sink_write(void * ud, uint8_t const * b, uint32_t n) { mc_check(ud == &t_prod[two_i], "write of the other sink"); two_put(8001); two_bytes(b, (int) n); }
static void t_prod_send(struct embc_stream_producer_s * p, tr * t) {
    mc_check(p == &t_prod[two_i], "sent to the other producer");
    two_put(t->type); two_put(t->status); two_put(t->length);
    if (t->type == EMBC_STREAM_EVENT_WRITE_REQUEST) { t_req[two_i] = t->length ? t->data.event_write_request_consumer_buffer.ptr : 0; mc_check(!t->length || t_req[two_i] == t_kb[two_i], "another buffer"); }
}
static void t_sink_step(int i, int s, int k) {
    static const char ops[][8] = {"rowwwc", "orwcow", "rowcrw"};    /* r: receive, o: open, w: write, c: close */
    if (k == 0) {
        embc_stream_sink_initialize(&t_sink[i], s ? t_kb[i] : 0, s ? 4 : 0);
        t_prod[i].send = t_prod_send; t_req[i] = 0;
        embc_stream_sink_set_producer(&t_sink[i], &t_prod[i]);
        if (s == 2) { embc_stream_sink_set_write_fn(&t_sink[i], t_sink_write, &t_prod[i]); }
        memset(t_dst[i], 0, sizeof(t_dst[i]));
        return;
    }
    two_bytes(t_dst[i], sizeof(t_dst[i]));
    if (k == 7) { return; }
    tr t; memset(&t, 0, sizeof(t));
    char c = ops[s][k - 1];
    if (c == 'r') { embc_stream_sink_receive(&t_sink[i], t_dst[i], s ? 8 : 16, t_sink_done, &t_sink[i]); return; }
    t.type = c == 'o' ? EMBC_STREAM_IOCTL_OPEN : c == 'c' ? EMBC_STREAM_IOCTL_CLOSE : EMBC_STREAM_IOCTL_WRITE;
    if (c == 'w') { t.data.ioctl_write.ptr = data[i] + k; t.length = 4; if (t_req[i]) { memcpy(t_req[i], data[i] + k, 4); t.data.ioctl_write.ptr = t_req[i]; } }
    struct embc_stream_consumer_s * con = embc_stream_sink_get_consumer(&t_sink[i]);
    con->send(con, &t);
}
static void t_sink_run(void) { static const struct two_s w = {3, 8, t_sink_step}; data_init(); two_run_(&w); }
static void sink_null_run(void) {
    struct embc_stream_sink_s a; uint8_t buf[8]; volatile bool f = 0; void * volatile p = 0; tr t; memset(&t, 0, sizeof(t));
    embc_stream_sink_initialize(&a, buf, 8);
    struct embc_stream_consumer_s * con = embc_stream_sink_get_consumer(&a);
    volatile int k = mc_choose(6);
    mc_op("null contract %d", k);
    switch (k) {
        case 0: f = MC_FATAL(embc_stream_sink_initialize(0, buf, 8)); break;
        case 1: f = MC_FATAL(p = embc_stream_sink_get_consumer(0)); break;
        case 2: f = MC_FATAL(embc_stream_sink_set_producer(0, 0)); break;
        case 3: f = MC_FATAL(embc_stream_sink_set_write_fn(0, 0, 0)); break;
        case 4: f = MC_FATAL(embc_stream_sink_receive(0, buf, 8, 0, 0)); break;
        default: f = MC_FATAL(con->send(0, &t)); break;
    }
    (void) p;
    mc_check(f, "an invalid argument was accepted (%d)", k);
    mc_state(k);
}
static const struct mc_scenario c39[] = {
    {"null", sink_null_run},
    {"two sinks", t_sink_run, 0, 0, 0, 0},
    {"sequences", sink_run, 0, 0, 0, 0}, {"unexpected messages", sink_run, 0, 0, 1, 0}, {"fill", sink_fill_run, 0, 0, 0, 0}, {"large transfers", sink_big_run, 0, 0, 0, 0}, {"misuse", sink_misuse_run, 0, 0, 0, 0}, {0}
};

/* ------------------------------------------------------------ C40 */
static struct {
    struct embc_stream_source_s src; struct embc_stream_sink_s sink;
    struct embc_stream_consumer_s con; struct embc_stream_producer_s prod;     /* the wires between them */
    tr fwd[16], back[16]; int nf, nb;
    int src_done, src_status, sink_done; uint32_t sink_len; uint8_t const * sink_buf;
} W;
static void wire_fwd(struct embc_stream_consumer_s * c, tr * t) { mc_check(c == &W.con && W.nf < 16, "wire"); W.fwd[W.nf++] = *t; }
static void wire_back(struct embc_stream_producer_s * p, tr * t) { mc_check(p == &W.prod && W.nb < 16, "wire"); W.back[W.nb++] = *t; }
static void w_src_done(void * ud, uint8_t st) { mc_check(ud == &W.src, "user data"); ++W.src_done; W.src_status = st; }
static void w_sink_done(void * ud, uint8_t const * b, uint32_t n) { mc_check(ud == &W.sink, "user data"); ++W.sink_done; W.sink_len = n; W.sink_buf = b; }
static void pump(int fwd) {
    tr t;
    if (fwd) { t = W.fwd[0]; --W.nf; memmove(W.fwd, W.fwd + 1, sizeof(tr) * W.nf); mc_op("deliver request %d (length %d)", t.type, t.length); struct embc_stream_consumer_s * c = embc_stream_sink_get_consumer(&W.sink); c->send(c, &t); }
    else { t = W.back[0]; --W.nb; memmove(W.back, W.back + 1, sizeof(tr) * W.nb); mc_op("deliver %s %d (status %d)", t.type < 128 ? "response" : "event", t.type, t.status); struct embc_stream_producer_s * p = embc_stream_source_get_producer(&W.src); p->send(p, &t); }
}
static void e2e_run(void) {
    data_init();
    int direct = mc_arg & 1, late = mc_arg & 2, abort_ = mc_arg & 4;
    static const int sizes[] = {0, 1, 2, 5, 8, 16};
    int sl = sizes[mc_choose(6)], kl = sizes[mc_choose(6)], maxlen = mc_tier(abort_ ? 6 : 20, abort_ ? 10 : 40), transfers = 2;
    uint8_t * sb = sl ? mc_malloc(sl) : 0, * kb = kl ? mc_malloc(kl) : 0;
    memset(&W.src, 0xa5, sizeof(W.src)); memset(&W.sink, 0xa5, sizeof(W.sink));
    embc_stream_source_initialize(&W.src, sb, (uint16_t) sl); embc_stream_sink_initialize(&W.sink, kb, (uint16_t) kl);
    W.con.send = wire_fwd; W.prod.send = wire_back;
    embc_stream_source_set_consumer(&W.src, direct ? embc_stream_sink_get_consumer(&W.sink) : &W.con);
    embc_stream_sink_set_producer(&W.sink, direct ? embc_stream_source_get_producer(&W.src) : &W.prod);
    for (int k = 0; k < transfers; ++k) {
        int len = k ? 3 : 1 + mc_choose(maxlen), cap = k ? 3 : len + mc_choose(4) - 2, armed = 0, aborted = 0;
        if (cap < 1) { cap = 1; }
        uint8_t * dst = mc_malloc(cap); memset(dst, 0x11, cap);
        mc_op("transfer of %d bytes into %d, producer buffer %d, consumer buffer %d", len, cap, sl, kl);
        W.src_done = W.sink_done = 0;
        embc_stream_source_configure(&W.src, data[k], len, w_src_done, &W.src);
        if (!late || (k && !mc_choose(2))) { embc_stream_sink_receive(&W.sink, dst, cap, w_sink_done, &W.sink); armed = 1; }
        else { embc_stream_sink_receive(&W.sink, 0, 0, 0, 0); }
        embc_stream_source_open(&W.src);
        for (;;) {
            int n = (W.nf > 0) + (W.nb > 0) + !armed, c, did = 0;
            if (!n) { break; }
            if (abort_ && !aborted && W.nb + W.nf && mc_choose(2)) {
                mc_op("abort"); aborted = 1; tr t; memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_EVENT_ABORT;
                struct embc_stream_producer_s * p = embc_stream_source_get_producer(&W.src); p->send(p, &t); continue;
            }
            c = n > 1 ? mc_choose(n) : 0;
            if (W.nf > 0 && !did && c-- == 0) { pump(1); did = 1; }
            if (!did && W.nb > 0 && c-- == 0) { pump(0); did = 1; }
            if (!did) { mc_op("receive into %d bytes", cap); armed = 1; embc_stream_sink_receive(&W.sink, dst, cap, w_sink_done, &W.sink); }
            mc_state(mc_mix(mc_mix(mc_mix(W.nf, W.nb), W.src_done * 2 + W.sink_done), len * 64 + cap));
        }
        mc_check(W.src_done == 1, "the source reported completion %d times", W.src_done);
        if (!late || armed) { mc_check(W.sink_done == 1, "the sink reported completion %d times", W.sink_done); }
        if (aborted && W.src_status) { mc_check(W.src_status == EMBC_ERROR_ABORTED || len > cap, "aborted transfer reported %d", W.src_status); mc_check(W.sink_len <= (uint32_t) cap && 0 == memcmp(dst, data[k], W.sink_len), "aborted transfer delivered other bytes"); }
        else {
            mc_check((W.src_status == 0) == (len <= cap), "%d bytes into %d: the source reported status %d", len, cap, W.src_status);
            if (len <= cap) { mc_check(W.sink_len == (uint32_t) len && W.sink_buf == dst && 0 == memcmp(dst, data[k], len), "%d bytes arrived as %u bytes or with other contents", len, W.sink_len); for (int i = len; i < cap; ++i) { mc_check(dst[i] == 0x11, "bytes after the data changed"); } }
            else { mc_check(W.sink_len <= (uint32_t) cap && 0 == memcmp(dst, data[k], W.sink_len), "overflow delivered other bytes"); }
        }
        if (abort_ || late) { embc_stream_sink_receive(&W.sink, 0, 0, 0, 0); }
        W.nb = W.nf = 0;
        mc_free(dst);
    }
    if (sb) { mc_free(sb); } if (kb) { mc_free(kb); }
}
static void e2e_big_run(void) {
    int len = big_len[mc_choose(8)], over = mc_choose(2), sl = big_block[mc_choose(8)], kl = big_block[mc_choose(8)], cap = len - over;
    data_big(131073);
    uint8_t * sb = sl ? mc_malloc(sl) : 0, * kb = kl ? mc_malloc(kl) : 0, * dst = mc_malloc(cap);
    embc_stream_source_initialize(&W.src, sb, (uint16_t) sl); embc_stream_sink_initialize(&W.sink, kb, (uint16_t) kl);
    W.con.send = wire_fwd; W.prod.send = wire_back;
    embc_stream_source_set_consumer(&W.src, &W.con); embc_stream_sink_set_producer(&W.sink, &W.prod);
    for (int k = 0; k < 2; ++k) {
        mc_op("transfer of %d bytes into %d, producer buffer %d, consumer buffer %d", len, cap, sl, kl);
        W.src_done = W.sink_done = 0;
        embc_stream_source_configure(&W.src, data[k], len, w_src_done, &W.src);
        embc_stream_sink_receive(&W.sink, dst, cap, w_sink_done, &W.sink);
        embc_stream_source_open(&W.src);
        for (int n = 0; W.nf || W.nb; ++n) { mc_check(n < 4 * len + 16, "the transfer does not end"); pump(W.nf > 0); }
        mc_check(W.src_done == 1 && W.sink_done == 1, "completion reported %d and %d times", W.src_done, W.sink_done);
        mc_check((W.src_status == 0) == !over, "%d bytes into %d: the source reported status %d", len, cap, W.src_status);
        mc_check(over || W.sink_len == (uint32_t) len, "%d bytes arrived as %u", len, W.sink_len);
        mc_check(W.sink_len <= (uint32_t) cap && W.sink_buf == dst && 0 == memcmp(dst, data[k], W.sink_len), "other contents arrived");
    }
    if (sb) { mc_free(sb); } if (kb) { mc_free(kb); } mc_free(dst);
    data_free();
}
/* two connections side by side: one message moves per step */
static struct { struct embc_stream_source_s src; struct embc_stream_sink_s sink; struct embc_stream_consumer_s con; struct embc_stream_producer_s prod; tr f[8], b[8]; int nf, nb; uint8_t dst[16]; } P[2];
static void t_fwd(struct embc_stream_consumer_s * c, tr * t) { mc_check(c == &P[two_i].con && P[two_i].nf < 8, "sent on the other connection"); P[two_i].f[P[two_i].nf++] = *t; }
static void t_back(struct embc_stream_producer_s * p, tr * t) { mc_check(p == &P[two_i].prod && P[two_i].nb < 8, "sent on the other connection"); P[two_i].b[P[two_i].nb++] = *t; }
static void t_p_src(void * ud, uint8_t st) { mc_check(ud == &P[two_i], "done of the other connection"); two_put(7000 + st); }
static void t_p_sink(void * ud, uint8_t const * b, uint32_t n) { mc_check(ud == &P[two_i] && b == P[two_i].dst, "done of the other connection"); two_put(7500); two_bytes(b, (int) n); }
static void t_pair_step(int i, int s, int k) {
    if (k == 0) {
        memset(&P[i], 0, sizeof(P[i]));
        embc_stream_source_initialize(&P[i].src, 0, 0); embc_stream_sink_initialize(&P[i].sink, s == 1 ? t_kb[i] : 0, s == 1 ? 4 : 0);
        P[i].con.send = t_fwd; P[i].prod.send = t_back;
        embc_stream_source_set_consumer(&P[i].src, &P[i].con); embc_stream_sink_set_producer(&P[i].sink, &P[i].prod);
        embc_stream_source_configure(&P[i].src, data[i] + 7 * i, s == 2 ? 11 : 6, t_p_src, &P[i]);
        embc_stream_sink_receive(&P[i].sink, P[i].dst, s == 2 ? 10 : 6, t_p_sink, &P[i]);
        embc_stream_source_open(&P[i].src);
        return;
    }
    for (int n = 0; n < (k == 7 ? 40 : 1); ++n) {
        if (P[i].nf) { tr t = P[i].f[0]; --P[i].nf; memmove(P[i].f, P[i].f + 1, sizeof(tr) * P[i].nf); struct embc_stream_consumer_s * c = embc_stream_sink_get_consumer(&P[i].sink); c->send(c, &t); }
        else if (P[i].nb) { tr t = P[i].b[0]; --P[i].nb; memmove(P[i].b, P[i].b + 1, sizeof(tr) * P[i].nb); struct embc_stream_producer_s * p = embc_stream_source_get_producer(&P[i].src); p->send(p, &t); }
    }
    two_bytes(P[i].dst, 16);
    if (k == 7) { mc_check(P[i].nf == 0 && P[i].nb == 0, "the transfer does not end"); mc_check(s == 2 || 0 == memcmp(P[i].dst, data[i] + 7 * i, 6), "other bytes arrived"); }
}
static void t_pair_run(void) { static const struct two_s w = {3, 8, t_pair_step}; data_init(); two_run_(&w); }
static const struct mc_scenario c40[] = {
    {"two connections", t_pair_run, 0, 0, 0, 0},
    {"connected directly", e2e_run, 0, 0, 1, 0}, {"queued", e2e_run, 0, 0, 0, 0}, {"late buffer", e2e_run, 0, 0, 2, 0}, {"aborted", e2e_run, 0, 0, 4, 0}, {"large transfers", e2e_big_run, 0, 0, 0, 0}, {0}
};

const struct mc_property mc_properties[] = {
    {"C38", c38},
    {"C39", c39},
    {"C40", c40},
    {0}
};
