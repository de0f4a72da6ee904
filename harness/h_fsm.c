/* C22: finite state machine. */
#include "mc.h"
#include "embc/fsm.h"
#include <string.h>

#define NS 3
enum { K_H = 1, K_EXIT, K_ENTER };
struct log_s { int kind, idx, event, state, ret, npost, post[9]; };
static struct log_s L[200]; static int nl;
static struct embc_fsm_s fsm;
static struct embc_fsm_transition_s T[6]; static int nt;
static int ret_choice, post_max, burst;
static int pushed;          /* events posted and not yet processed, upper bound kept by the model */

static void post(struct log_s * l, embc_fsm_state_t s) {
    (void) s;
    if (burst) { burst = -burst; for (int i = 0; i < -burst; ++i) { l->post[l->npost++] = i & 1; embc_fsm_event(&fsm, i & 1); } burst = 0; return; }
    for (int k = 0; k < post_max && mc_dev_left(); ++k) {
        int a = mc_dev(4);
        if (!a) { break; }
        int ev = a == 3 ? EMBC_EVENT_RESET : a - 1;
        mc_note("    posts event %d", ev);
        l->post[l->npost++] = ev;
        int before = nl, st = fsm.state;
        if (ev == EMBC_EVENT_RESET) { embc_fsm_reset(&fsm); } else { embc_fsm_event(&fsm, ev); }
        mc_check(nl == before && fsm.state == st, "an event posted by a handler was processed before the current one completed");
    }
}
static int handler(int idx, struct embc_fsm_s * self, int ev) {
    static const int rets[] = {EMBC_STATE_ANY, EMBC_STATE_NULL, EMBC_STATE_SKIP, 0, 1, 2};
    mc_check(self == &fsm, "handler of another instance");
    mc_check(nl < 190, "too many handler calls");
    struct log_s * l = &L[nl++];
    *l = (struct log_s) {K_H, idx, ev, self->state, 0, 0, {0}};
    l->ret = rets[mc_choose(ret_choice)];
    mc_note("  transition handler %d in state %d on event %d returns %d", idx, self->state, ev, l->ret);
    post(l, self->state);
    return l->ret;
}
static embc_fsm_state_t h0(struct embc_fsm_s * s, embc_fsm_event_t e) { return handler(0, s, e); }
static embc_fsm_state_t h1(struct embc_fsm_s * s, embc_fsm_event_t e) { return handler(1, s, e); }
static embc_fsm_state_t h2(struct embc_fsm_s * s, embc_fsm_event_t e) { return handler(2, s, e); }
static embc_fsm_state_t h3(struct embc_fsm_s * s, embc_fsm_event_t e) { return handler(3, s, e); }
static const embc_fsm_handler H[] = {h0, h1, h2, h3};

static int state_handler(int kind, int idx, struct embc_fsm_s * self, int ev) {
    mc_check(self == &fsm, "handler of another instance");
    mc_check(nl < 190, "too many handler calls");
    struct log_s * l = &L[nl++];
    *l = (struct log_s) {kind, idx, ev, self->state, 0, 0, {0}};
    mc_note("  %s handler of state %d", kind == K_EXIT ? "exit" : "enter", idx);
    post(l, self->state);
    return 1;      /* documented as ignored */
}
static embc_fsm_state_t en0(struct embc_fsm_s * s, embc_fsm_event_t e) { return state_handler(K_ENTER, 0, s, e); }
static embc_fsm_state_t en1(struct embc_fsm_s * s, embc_fsm_event_t e) { return state_handler(K_ENTER, 1, s, e); }
static embc_fsm_state_t ex0(struct embc_fsm_s * s, embc_fsm_event_t e) { return state_handler(K_EXIT, 0, s, e); }
static embc_fsm_state_t ex2(struct embc_fsm_s * s, embc_fsm_event_t e) { return state_handler(K_EXIT, 2, s, e); }
static const struct embc_fsm_state_s states[NS] = {
    {0, "s0", en0, ex0}, {1, "s1", en1, 0}, {2, 0, 0, ex2},
};
static const char * names(struct embc_fsm_s * s, embc_fsm_event_t e) { (void) s; return e == 0 ? "e0" : 0; }

/* reference interpreter, consuming the log */
static int m_state; static int mq[64], mqh, mqt; static int lp;
static void m_post(const struct log_s * l) { for (int i = 0; i < l->npost; ++i) { mq[mqt++] = l->post[i]; } }
static const struct log_s * expect(int kind, int idx, int ev) {
    mc_check(lp < nl, "expected call of %s %d (event %d) did not happen", kind == K_H ? "transition handler" : kind == K_EXIT ? "exit handler of state" : "enter handler of state", idx, ev);
    const struct log_s * l = &L[lp++];
    mc_check(l->kind == kind && l->idx == idx && l->event == ev, "call %d is (kind %d, index %d, event %d), expected (kind %d, index %d, event %d)", lp, l->kind, l->idx, l->event, kind, idx, ev);
    mc_check(l->state == m_state, "handler ran in state %d, expected %d", l->state, m_state);
    m_post(l);
    return l;
}
static void m_transition(int next) {
    if (next == EMBC_STATE_NULL) { return; }
    if (m_state >= 0 && states[m_state].on_exit) { expect(K_EXIT, m_state, EMBC_EVENT_EXIT); }
    m_state = next;
    if (states[next].on_enter) { expect(K_ENTER, next, EMBC_EVENT_ENTER); }
}
static void m_run(int ev) {
    mqh = mqt = 0; lp = 0;
    mq[mqt++] = ev;
    while (mqh < mqt) {
        int e = mq[mqh++];
        for (int i = 0; i < nt; ++i) {
            if (T[i].current != EMBC_STATE_ANY && T[i].current != m_state) { continue; }
            if (T[i].event != EMBC_EVENT_ANY && T[i].event != e) { continue; }
            int next = T[i].next;
            if (T[i].handler) {
                int k = 0; while (H[k] != T[i].handler) { ++k; }
                int r = expect(K_H, k, e)->ret;
                if (r == EMBC_STATE_NULL) { break; }
                if (r == EMBC_STATE_SKIP) { continue; }
                if (r != EMBC_STATE_ANY) { next = r; }
            }
            m_transition(next);
            break;
        }
    }
    mc_check(lp == nl, "%d handler calls, expected %d", nl, lp);
    mc_check(fsm.state == m_state, "state is %d, expected %d", fsm.state, m_state);
}
static void send(int ev) {
    nl = 0;
    mc_op("event %d in state %d", ev, fsm.state);
    int f;
    if (ev == EMBC_EVENT_RESET) { f = MC_FATAL(embc_fsm_reset(&fsm)); } else { f = MC_FATAL(embc_fsm_event(&fsm, ev)); }
    mc_check(!f, "event raised a fatal error: %s", mc_fatal_msg);
    m_run(ev);
    mc_state(mc_mix(m_state, nl));
}
static void setup(void) {
    /* initialize does not depend on what the private fields held */
    for (unsigned i = 0; i < sizeof(fsm); ++i) { ((unsigned char *) &fsm)[i] = 1 + i % 7; }
    fsm.states = states; fsm.states_count = NS; fsm.transitions = T; fsm.transitions_count = nt;
    fsm.name = mc_arg & 1 ? "x" : 0; fsm.event_name_fn = mc_arg & 1 ? names : 0;
    m_state = EMBC_STATE_NULL;
    nl = 0;
    mc_op("initialize");
    int f = MC_FATAL(embc_fsm_initialize(&fsm));
    mc_check(!f || fsm.state < 0, "initialize raised a fatal error: %s", mc_fatal_msg);
    m_run(EMBC_EVENT_RESET);
    mc_check(fsm.name != 0, "the machine has no name after initialize");
    mc_check(f == (m_state < 0), "initialize %s with state %d", f ? "was fatal" : "was not fatal", m_state);
    if (f) { mc_prune(); }
}
/* all tables of n entries after a reset entry */
static void tables_run(void) {
    int n = mc_arg / 10, reset_last = mc_choose(2);
    ret_choice = 4; post_max = 0; burst = 0;
    nt = 0;
    if (!reset_last) { T[nt++] = (struct embc_fsm_transition_s) {EMBC_STATE_ANY, 0, EMBC_EVENT_RESET, 0}; }
    for (int i = 0; i < n; ++i) {
        static const int cur[] = {EMBC_STATE_ANY, 0, 1}, nx[] = {EMBC_STATE_NULL, 0, 1}, evs[] = {EMBC_EVENT_ANY, 0, 1};
        T[nt].current = cur[mc_choose(3)];
        T[nt].event = evs[mc_choose(3)];
        T[nt].next = nx[mc_choose(3)];
        T[nt].handler = mc_choose(2) ? H[i] : 0;
        ++nt;
    }
    if (reset_last) { T[nt++] = (struct embc_fsm_transition_s) {EMBC_STATE_ANY, 0, EMBC_EVENT_RESET, 0}; }
    setup();
    int depth = n >= 3 ? 2 : mc_tier(2, 4);
    for (int d = 0; d < depth; ++d) { send(mc_choose(2)); }
}
/* fixed tables, handlers with all results that post events */
static const struct embc_fsm_transition_s TA[] = {
    {EMBC_STATE_ANY, 0, EMBC_EVENT_RESET, 0}, {0, 1, 0, h0}, {1, 2, EMBC_EVENT_ANY, h1}, {EMBC_STATE_ANY, 0, 1, h2},
};
static const struct embc_fsm_transition_s TB[] = {
    {0, 0, 0, h0}, {EMBC_STATE_ANY, EMBC_STATE_NULL, 0, h1}, {2, 1, 1, 0}, {EMBC_STATE_ANY, 2, EMBC_EVENT_ANY, 0},
};
static const struct embc_fsm_transition_s TC[] = {
    {EMBC_STATE_NULL, 1, EMBC_EVENT_RESET, h3}, {EMBC_STATE_ANY, 2, 0, 0}, {EMBC_STATE_ANY, 1, EMBC_EVENT_RESET, 0}, {2, 0, 1, h1},
};
static void posts_run(void) {
    const struct embc_fsm_transition_s * t = mc_arg / 10 == 1 ? TA : mc_arg / 10 == 2 ? TB : TC;
    memcpy(T, t, sizeof(TA)); nt = 4;
    ret_choice = 6; post_max = 2; burst = 0;
    setup();
    int depth = 2;
    for (int d = 0; d < depth; ++d) { int c = mc_choose(4); send(c == 3 ? EMBC_EVENT_RESET : c); }
}
/* the queue holds 7 pending events */
static void burst_run(void) {
    memcpy(T, TB, sizeof(TB)); nt = 4;
    ret_choice = 1; post_max = 0; burst = 0;
    setup();
    int pre = mc_choose(9);
    for (int i = 0; i < pre; ++i) { send(1); }     /* move the ring */
    int b = 1 + mc_choose(8);
    burst = b;
    nl = 0;
    mc_op("event 0, first handler posts %d events", burst);
    int f = MC_FATAL(embc_fsm_event(&fsm, 0));
    if (b <= 7) { mc_check(!f, "posting %d events from a handler was fatal", b); m_run(0); send(0); send(1); }
    else { mc_check(f, "posting %d events from a handler exceeds the queue and was not fatal", b); }
}
static void badstates_run(void) {
    struct embc_fsm_state_s bad[NS];
    memcpy(bad, states, sizeof(bad));
    memcpy(T, TA, sizeof(TA)); nt = 4;
    int i = mc_choose(NS), v = mc_choose(5) - 1;
    bad[i].state = v;
    memset(&fsm, 0, sizeof(fsm));
    fsm.states = bad; fsm.states_count = NS; fsm.transitions = T; fsm.transitions_count = nt;
    mc_op("initialize with state %d numbered %d", i, v);
    int f = MC_FATAL(embc_fsm_initialize(&fsm));
    mc_check(f == (i != v), "initialize with state %d numbered %d %s", i, v, f ? "was fatal" : "was not fatal");
    mc_check(MC_FATAL(embc_fsm_initialize(0)) && MC_FATAL(embc_fsm_event(0, 0)) && MC_FATAL(embc_fsm_reset(0)), "null instance was accepted");
}
/* large tables: the entry that matches is anywhere in the table */
#define BIGT 70000
static MC_KEEP struct embc_fsm_transition_s bt[BIGT];
static struct embc_fsm_state_s bs[127];
static int big_enter, big_exit, big_order;
static embc_fsm_state_t b_en(struct embc_fsm_s * s, embc_fsm_event_t e) { mc_check(e == EMBC_EVENT_ENTER, "enter handler given event %d", e); big_enter = s->state; big_order = big_order * 2 + 1; return 0; }
static embc_fsm_state_t b_ex(struct embc_fsm_s * s, embc_fsm_event_t e) { mc_check(e == EMBC_EVENT_EXIT, "exit handler given event %d", e); big_exit = s->state; big_order = big_order * 2; return 0; }
static void big_run(void) {
    static const int ns[] = {2, 9, 127, 128, 129, 255, 256, 257, 300, 32768, 65535, 65536, 70000};
    int n = ns[mc_choose(13)], where = mc_choose(5), to = mc_choose(4), ev = mc_choose(4);
    static const int evs[] = {0, 1, 100, 126};
    static const int tos[] = {1, 63, 64, 126};
    int at = where == 0 ? 1 : where == 1 ? n - 1 : where == 2 ? n / 2 : where == 3 ? (n > 256 ? 256 : n - 1) : (n > 65535 ? 65535 : n - 1);
    if (at < 1) { at = 1; }
    for (int i = 0; i < 127; ++i) { bs[i] = (struct embc_fsm_state_s) {(embc_fsm_state_t) i, 0, b_en, b_ex}; }
    memset(bt, 0, sizeof(bt[0]) * n);
    for (int i = 1; i < n; ++i) { bt[i] = (struct embc_fsm_transition_s) {(embc_fsm_state_t) (2 + i % 60), 5, (embc_fsm_event_t) evs[ev], 0}; }
    bt[0] = (struct embc_fsm_transition_s) {EMBC_STATE_ANY, 0, EMBC_EVENT_RESET, 0};
    bt[at] = (struct embc_fsm_transition_s) {0, (embc_fsm_state_t) tos[to], (embc_fsm_event_t) evs[ev], 0};
    memset(&fsm, 0, sizeof(fsm));
    fsm.states = bs; fsm.states_count = 127; fsm.transitions = bt; fsm.transitions_count = n;
    mc_op("%d transitions, event %d matches entry %d to state %d", n, evs[ev], at, tos[to]);
    mc_check(!MC_FATAL(embc_fsm_initialize(&fsm)), "initialize failed");
    mc_check(fsm.state == 0 && big_enter == 0, "state %d after reset", fsm.state);
    big_order = 1;
    embc_fsm_event(&fsm, (embc_fsm_event_t) (evs[ev] == 1 ? 0 : 1));
    mc_check(fsm.state == 0 && big_order == 1, "an event without an entry changed the state to %d", fsm.state);
    embc_fsm_event(&fsm, (embc_fsm_event_t) evs[ev]);
    mc_check(fsm.state == tos[to], "state %d, expected %d", fsm.state, tos[to]);
    mc_check(big_order == 5 && big_exit == 0 && big_enter == tos[to], "exit handler of %d, enter handler of %d", big_exit, big_enter);
    embc_fsm_reset(&fsm);
    mc_check(fsm.state == 0 && big_exit == tos[to] && big_enter == 0, "state %d after reset", fsm.state);
    mc_count(n);
    mc_state(mc_mix(n, (where * 4 + to) * 4 + ev));
}
/* two machines whose handlers post to each other and to themselves */
static struct embc_fsm_s two[2];
static int tq[2][32], tqn[2], depth_in[2], calls;
static int ptarget[8], npt, ipt;
static embc_fsm_state_t two_h(struct embc_fsm_s * s, embc_fsm_event_t e) {
    int q = (int) (s - two);
    (void) e;
    mc_check(!depth_in[q], "an event was processed before the current one of the same machine completed");
    depth_in[q] = 1; ++calls;
    if (ipt < npt) {
        int t = ptarget[ipt++];
        int st = two[t].state, busy = depth_in[t];
        mc_note("    machine %d posts to machine %d", q, t);
        embc_fsm_event(&two[t], 0);
        if (busy) { mc_check(two[t].state == st, "posted event was processed inside the handler"); }
    }
    depth_in[q] = 0;
    return EMBC_STATE_ANY;
}
static void two_run(void) {
    static const struct embc_fsm_transition_s tt[] = {{EMBC_STATE_ANY, 0, EMBC_EVENT_RESET, 0}, {0, 1, 0, two_h}, {1, 0, 0, two_h}};
    static const struct embc_fsm_state_s ss[] = {{0, "a", 0, 0}, {1, "b", 0, 0}};
    memset(two, 0, sizeof(two));
    for (int q = 0; q < 2; ++q) {
        two[q].states = ss; two[q].states_count = 2; two[q].transitions = tt; two[q].transitions_count = 3;
        mc_check(!MC_FATAL(embc_fsm_initialize(&two[q])), "initialize");
    }
    memset(depth_in, 0, sizeof(depth_in));
    int exp[2] = {0, 0};
    for (int d = 0; d < mc_tier(3, 4); ++d) {
        int q = mc_choose(2);
        npt = mc_choose(4); ipt = 0;
        for (int i = 0; i < npt; ++i) { ptarget[i] = mc_choose(2); }
        mc_op("event to machine %d, handlers post %d events", q, npt);
        calls = 0;
        embc_fsm_event(&two[q], 0);
        exp[q] ^= 1;
        for (int i = 0; i < npt; ++i) { exp[ptarget[i]] ^= 1; }
        mc_check(calls == npt + 1 && ipt == npt, "%d handler calls, expected %d", calls, npt + 1);
        mc_check(two[0].state == exp[0] && two[1].state == exp[1], "states %d %d, expected %d %d", two[0].state, two[1].state, exp[0], exp[1]);
        mc_state(exp[0] * 2 + exp[1]);
    }
}
static const struct mc_scenario c22[] = {
    {"large tables", big_run, 0, 0, 0, 0}, {"two machines", two_run, 0, 0, 0, 0},
    {"tables of 1", tables_run, 0, 0, 10, 0}, {"tables of 2", tables_run, 0, 0, 21, 0}, {"tables of 3", tables_run, 0, 0, 31, 1},
    {"posting, table A", posts_run, 2, 4, 10, 0}, {"posting, table B", posts_run, 3, 4, 21, 0}, {"posting, table C", posts_run, 3, 5, 30, 0},
    {"queue limit", burst_run, 0, 0, 0, 0}, {"state numbering", badstates_run, 0, 0, 0, 0},
    {0}
};
const struct mc_property mc_properties[] = {
    {"C22", c22},
    {0}
};
