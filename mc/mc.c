#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>

void * __real_malloc(size_t);
void __real_free(void *);
void * __real_calloc(size_t, size_t);
void * __real_realloc(void *, size_t);

const char * __asan_default_options(void) {
    return "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:"
           "quarantine_size_mb=4:thread_local_quarantine_size_kb=64:malloc_context_size=3:"
           "detect_stack_use_after_return=0:symbolize=0:print_legend=0:print_summary=1:handle_abort=1";
}

#define MAX_WORKERS 16
#define HT_BITS 24
#define HT_SIZE (1ull << HT_BITS)
#define SAMPLES 3

struct vec_s { int len; int v[MC_MAX_CHOICES]; };

struct worker_s {
    volatile uint64_t progress;
    volatile int busy;
    struct vec_s vec;      /* the choices of the execution being run */
    uint64_t execs;
    uint64_t transitions;
    uint64_t max_choices;
    uint64_t pruned;
    int capped;
    int finished;
    int error;
    char errmsg[256];
};

struct shared_s {
    atomic_int stop;
    atomic_long next_prefix;
    atomic_int viol_claimed;
    volatile int viol_ready;
    struct vec_s viol;
    char viol_msg[2048];
    atomic_ullong states;
    atomic_int ht_full;
    int scout_depth;
    long scout_prefixes;
    struct vec_s sample[SAMPLES];
    atomic_int sample_used[SAMPLES];
    atomic_ullong samples_seen;
    char known_hit[32][64];
    atomic_int known_count;
    struct worker_s w[MAX_WORKERS];
};

static struct shared_s * sh;
static atomic_ullong * ht;

int mc_thorough, mc_arg, mc_tracing, mc_faults;
char mc_fatal_msg[256];
sigjmp_buf * mc_try_buf;

static const struct mc_scenario * cur_scn;
static int cur_dev;
static struct worker_s * me;
static int arity[MC_MAX_CHOICES];
static int replay_len;      /* choices to replay */
static int pos;             /* choices made */
static int dev_left;
static int split_depth = -1;/* abort the execution after that many choices */
static sigjmp_buf exec_jb;
static FILE * trace_file;
static const char * known_keys;
static double t_start, t_cap;

enum { RC_OK = 0, RC_PREFIX = 1, RC_VIOL = 2, RC_PRUNE = 3, RC_ERR = 4 };

static double now(void) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

/* ---- writable static data of the code under test ---- */
extern char __start_mcdata[] __attribute__((weak));
extern char __stop_mcdata[] __attribute__((weak));
extern char __start_mcbss[] __attribute__((weak));
extern char __stop_mcbss[] __attribute__((weak));
static char * snap[2];
static size_t snap_len[2];
static char * snap_at[2];

__attribute__((no_sanitize("address")))
static void raw_copy(char * d, const char * s, size_t n) {
    while (n && ((uintptr_t) d & 7)) { *(volatile char *) d = *s; ++d; ++s; --n; }
    for (; n >= 8; n -= 8, d += 8, s += 8) {
        uint64_t a, b;
        __builtin_memcpy(&b, s, 8);
        a = *(volatile uint64_t *) d;
        if (a != b) { *(volatile uint64_t *) d = b; }
    }
    for (; n; --n, ++d, ++s) { *(volatile char *) d = *s; }
}

static void snapshot(void) {
    snap_at[0] = __start_mcdata; snap_len[0] = __stop_mcdata - __start_mcdata;
    snap_at[1] = __start_mcbss;  snap_len[1] = __stop_mcbss - __start_mcbss;
    for (int k = 0; k < 2; ++k) {
        if (snap_at[k] && snap_len[k]) {
            snap[k] = __real_malloc(snap_len[k]);
            raw_copy(snap[k], snap_at[k], snap_len[k]);
        } else {
            snap_len[k] = 0;
        }
    }
}

static void restore(void) {
    for (int k = 0; k < 2; ++k) {
        if (snap_len[k]) { raw_copy(snap_at[k], snap[k], snap_len[k]); }
    }
}

/* ---- heap ---- */
struct blk_s { struct blk_s * next, * prev; size_t n; uint64_t magic; };
#define BLK_MAGIC 0x6d63626c6b5f6f6bull
static struct blk_s blk_head;
static long blk_count;
static size_t blk_bytes;
static long alloc_left = -1;
static int in_exec;

void * mc_malloc(size_t n) {
    if (alloc_left == 0) { return 0; }
    if (alloc_left > 0) { --alloc_left; }
    if (n > (1u << 28) || blk_bytes + n > (1u << 29)) { mc_fail("memory demand explodes: %zu more bytes", n); }
    struct blk_s * b = __real_malloc(sizeof(*b) + n);
    if (!b) { mc_fail("malloc(%zu) failed", n); }
    b->n = n; b->magic = BLK_MAGIC;
    b->next = blk_head.next; b->prev = &blk_head;
    blk_head.next->prev = b; blk_head.next = b;
    ++blk_count; blk_bytes += n;
    memset(b + 1, 0xA5, n);
    return b + 1;
}

void mc_free(void * p) {
    if (!p) { return; }
    struct blk_s * b = ((struct blk_s *) p) - 1;
    if (b->magic != BLK_MAGIC) { mc_fail("free of a pointer that was not allocated, or double free"); }
    b->magic = 0;
    b->next->prev = b->prev; b->prev->next = b->next;
    --blk_count; blk_bytes -= b->n;
    memset(p, 0xDD, b->n);
    __real_free(b);
}

long mc_outstanding(void) { return blk_count; }
void mc_alloc_fail_after(long n) { alloc_left = n; }

static void heap_reset(void) {
    while (blk_head.next != &blk_head) {
        struct blk_s * b = blk_head.next;
        blk_head.next = b->next; b->next->prev = &blk_head;
        __real_free(b);
    }
    blk_count = 0; blk_bytes = 0; alloc_left = -1;
}

/* malloc & co. called by the code under test or a harness, during an execution */
void * __wrap_malloc(size_t n) { return in_exec ? mc_malloc(n) : __real_malloc(n); }
void * __wrap_calloc(size_t a, size_t b) {
    if (!in_exec) { return __real_calloc(a, b); }
    void * p = mc_malloc(a * b);
    if (p) { memset(p, 0, a * b); }
    return p;
}
void __wrap_free(void * p) { if (in_exec) { mc_free(p); } else { __real_free(p); } }
void * __wrap_realloc(void * p, size_t n) {
    if (!in_exec) { return __real_realloc(p, n); }
    void * q = mc_malloc(n);
    if (p && q) {
        size_t k = (((struct blk_s *) p) - 1)->n;
        memcpy(q, p, k < n ? k : n);
        mc_free(p);
    }
    return q;
}

/* ---- fatal errors raised by the code under test ---- */
void embc_fatal(char const * file, int line, char const * msg) {
    ++mc_faults;
    snprintf(mc_fatal_msg, sizeof(mc_fatal_msg), "%s:%d: %s", file ? file : "?", line, msg ? msg : "?");
    if (mc_try_buf) {
        siglongjmp(*mc_try_buf, 1);
    }
    mc_fail("unexpected fatal error at %s", mc_fatal_msg);
}

/* ---- choices ---- */
static void internal_error(const char * msg) {
    snprintf(me->errmsg, sizeof(me->errmsg), "%s (choice %d, replayed %d)", msg, pos, replay_len);
    me->error = 1;
    siglongjmp(exec_jb, RC_ERR);
}

static int choose(int n) {
    if (n < 1) { internal_error("mc_choose without alternatives"); }
    if (pos >= MC_MAX_CHOICES) { internal_error("too many choices in one execution"); }
    if (pos == split_depth) { siglongjmp(exec_jb, RC_PREFIX); }
    ++me->progress;
    if (pos < replay_len) {
        if (arity[pos] == 0) { arity[pos] = n; }
        if (arity[pos] != n || me->vec.v[pos] >= n) { internal_error("nondeterminism: a replayed prefix diverged"); }
    } else {
        arity[pos] = n;
        me->vec.v[pos] = 0;
        me->vec.len = pos + 1;
    }
    return me->vec.v[pos++];
}

int mc_choose(int n) {
    return (n == 1) ? 0 : choose(n);
}

int mc_dev(int n) {
    if (dev_left <= 0 || n <= 1) { return 0; }
    int c = choose(n);
    if (c) { --dev_left; }
    return c;
}

int mc_dev_left(void) { return dev_left; }

void mc_prune(void) { siglongjmp(exec_jb, RC_PRUNE); }

static void vfail(const char * prefix, const char * fmt, va_list ap) {
    char buf[1800];
    in_exec = 0;
    vsnprintf(buf, sizeof(buf), fmt, ap);
    int z = 0;
    if (atomic_compare_exchange_strong(&sh->viol_claimed, &z, 1)) {
        snprintf(sh->viol_msg, sizeof(sh->viol_msg), "%s%s", prefix, buf);
        sh->viol.len = pos;
        memcpy(sh->viol.v, me->vec.v, pos * sizeof(int));
        sh->viol_ready = 1;
    }
    if (mc_tracing) { mc_trace_("VIOLATION: %s%s", prefix, buf); }
    siglongjmp(exec_jb, RC_VIOL);
}

void mc_fail(const char * fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfail("", fmt, ap);
    abort();
}

void mc_fail_key(const char * key, const char * fmt, ...) {
    if (known_keys) {
        char k[80];
        snprintf(k, sizeof(k), ",%s,", key);
        if (strstr(known_keys, k)) {
            int n = atomic_load(&sh->known_count), i;
            for (i = 0; i < n && i < 32; ++i) {
                if (0 == strcmp(sh->known_hit[i], key)) { break; }
            }
            if (i == n && n < 32) {
                i = atomic_fetch_add(&sh->known_count, 1);
                if (i < 32) { snprintf(sh->known_hit[i], 64, "%s", key); }
            }
            mc_note("known finding %s", key);
            siglongjmp(exec_jb, RC_PRUNE);
        }
    }
    char pre[96];
    snprintf(pre, sizeof(pre), "[%s] ", key);
    va_list ap;
    va_start(ap, fmt);
    vfail(pre, fmt, ap);
    abort();
}

void mc_trace_(const char * fmt, ...) {
    if (!trace_file) { return; }
    int save = in_exec;
    in_exec = 0;
    va_list ap;
    va_start(ap, fmt);
    vfprintf(trace_file, fmt, ap);
    va_end(ap);
    fputc('\n', trace_file);
    fflush(trace_file);
    in_exec = save;
}

void mc_transition_(void) { ++me->transitions; ++me->progress; }
void mc_count(uint64_t n) { me->transitions += n; ++me->progress; }
void mc_tick(void) {
    ++me->progress;
    if (t_cap > 0 && in_exec && now() - t_start > t_cap) { me->capped = 1; atomic_store(&sh->stop, 1); mc_prune(); }
}

uint64_t mc_hash(uint64_t h, const void * p, size_t n) {
    const uint8_t * b = p;
    for (size_t i = 0; i < n; ++i) { h = (h ^ b[i]) * 0x100000001b3ull; h ^= h >> 29; }
    return h;
}

void mc_state(uint64_t h) {
    h = mc_mix(h, 0x1234567);
    if (h == 0) { h = 1; }
    uint64_t i = h & (HT_SIZE - 1);
    for (int probe = 0; probe < 64; ++probe) {
        uint64_t x = atomic_load_explicit(&ht[i], memory_order_relaxed);
        if (x == h) { return; }
        if (x == 0) {
            unsigned long long z = 0;
            if (atomic_compare_exchange_strong(&ht[i], &z, h)) {
                atomic_fetch_add_explicit(&sh->states, 1, memory_order_relaxed);
                return;
            }
            if (z == h) { return; }
        }
        i = (i + 1) & (HT_SIZE - 1);
    }
    atomic_store(&sh->ht_full, 1);
}

/* ---- one execution ---- */
static int execute(void) {
    volatile int r;
    pos = 0;
    dev_left = cur_dev;
    mc_faults = 0;
    mc_fatal_msg[0] = 0;
    mc_try_buf = 0;
    mc_arg = cur_scn->arg;
    restore();
    ++me->progress;
    me->busy = 1;
    in_exec = 1;
    r = sigsetjmp(exec_jb, 0);
    if (r == 0) {
        cur_scn->run();
        r = RC_OK;
    }
    in_exec = 0;
    me->busy = 0;
    heap_reset();
    me->vec.len = pos;
    if ((uint64_t) pos > me->max_choices) { me->max_choices = pos; }
    return r;
}

/* next vector whose choices below lower are unchanged */
static bool backtrack(int lower) {
    int i = me->vec.len - 1;
    for (; i >= lower; --i) {
        if (me->vec.v[i] + 1 < arity[i]) {
            ++me->vec.v[i];
            me->vec.len = i + 1;
            replay_len = i + 1;
            return true;
        }
    }
    return false;
}

static void take_sample(void) {
    unsigned long long n = atomic_fetch_add(&sh->samples_seen, 1);
    static const unsigned long long when[SAMPLES] = {0, 97, 5003};
    for (int k = 0; k < SAMPLES; ++k) {
        if (n == when[k]) {
            sh->sample[k].len = me->vec.len;
            memcpy(sh->sample[k].v, me->vec.v, sizeof(int) * me->vec.len);
            atomic_store(&sh->sample_used[k], 1);
        }
    }
}

static bool account(int r) {
    if (r == RC_VIOL || r == RC_ERR) {
        atomic_store(&sh->stop, 1);
        return false;
    }
    if (r == RC_PRUNE) { ++me->pruned; } else { ++me->execs; }
    if (r == RC_OK && (me->execs & 63) == 1) { take_sample(); }
    if (atomic_load_explicit(&sh->stop, memory_order_relaxed)) { return false; }
    if (t_cap > 0 && now() - t_start > t_cap) { me->capped = 1; return false; }
    return true;
}

static void scout_run(int depth) {
    long prefixes = 0;
    replay_len = 0; me->vec.len = 0;
    split_depth = depth;
    int deeper = 0;
    for (;;) {
        int r = execute();
        if (r == RC_VIOL || r == RC_ERR) { atomic_store(&sh->stop, 1); me->finished = 1; return; }
        if (r == RC_PREFIX) { ++deeper; }
        ++prefixes;
        if (prefixes > 20000) { break; }
        if (!backtrack(0)) { break; }
    }
    sh->scout_depth = depth;
    sh->scout_prefixes = deeper ? prefixes : -prefixes;
    me->finished = 1;
    me->transitions = 0;
}

static void worker_run(int depth) {
    long idx = 0;
    long mine = atomic_fetch_add(&sh->next_prefix, 1);
    replay_len = 0; me->vec.len = 0;
    for (;;) {
        bool owned = (idx == mine);
        uint64_t tsave = me->transitions;
        split_depth = owned ? -1 : depth;
        int r = execute();
        if (owned) {
            if (!account(r)) { break; }
            bool go = true;
            while (me->vec.len > depth && backtrack(depth)) {
                r = execute();
                if (!account(r)) { go = false; break; }
            }
            if (!go) { break; }
            if (me->vec.len > depth) { me->vec.len = depth; }
            mine = atomic_fetch_add(&sh->next_prefix, 1);
        } else {
            me->transitions = tsave;
            if (r == RC_ERR) { account(r); break; }
            if (r == RC_VIOL) { account(r); break; }
            if (atomic_load(&sh->stop)) { break; }
        }
        ++idx;
        if (!backtrack(0)) { break; }
    }
    me->finished = 1;
}

/* ---- parent ---- */
static char tmpdir[512];

static pid_t spawn(int slot, int what, int depth, const struct vec_s * replay, const char * trace_path) {
    char err[700];
    snprintf(err, sizeof(err), "%s/err.%d", tmpdir, slot);
    fflush(stdout);
    struct worker_s * w = &sh->w[slot];
    if (what != 1) { memset(w, 0, sizeof(*w)); }
    w->finished = 0;
    pid_t pid = fork();
    if (pid) { return pid; }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(err, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    me = w;
    memset(arity, 0, sizeof(arity));
    if (what == 0) {
        scout_run(depth);
    } else if (what == 1) {
        worker_run(depth);
    } else {
        me->vec = *replay;
        replay_len = replay->len;
        if (trace_path) { trace_file = fopen(trace_path, "w"); mc_tracing = trace_file ? 1 : 0; }
        split_depth = -1;
        int r = execute();
        me->finished = 1;
        _exit(r == RC_VIOL ? 42 : (r == RC_ERR ? 43 : 0));
    }
    _exit(me->error ? 43 : 0);
}

static void read_err(int slot, char * out, size_t n) {
    char path[700], line[600];
    snprintf(path, sizeof(path), "%s/err.%d", tmpdir, slot);
    out[0] = 0;
    FILE * f = fopen(path, "r");
    if (!f) { return; }
    while (fgets(line, sizeof(line), f)) {
        char * p = strstr(line, "ERROR: AddressSanitizer");
        if (!p) { p = strstr(line, "runtime error"); }
        if (p) {
            p[strcspn(p, "\n")] = 0;
            /* strip addresses: keep the report independent of layout */
            char * q = strstr(p, " on ");
            if (q) { *q = 0; }
            snprintf(out, n, "%s", p);
            break;
        }
    }
    fclose(f);
}

struct outcome_s { int violated; int error; char msg[2300]; };

/* run a set of processes to their end; detect crashes and hangs */
static void supervise(pid_t * pid, int n, double hang_s, struct outcome_s * o) {
    uint64_t last[MAX_WORKERS];
    double when[MAX_WORKERS];
    int alive = n;
    double t0 = now();
    for (int i = 0; i < n; ++i) { last[i] = 0; when[i] = t0; }
    int sleep_us = 200;
    while (alive) {
        bool any = false;
        for (int i = 0; i < n; ++i) {
            if (!pid[i]) { continue; }
            int st;
            pid_t r = waitpid(pid[i], &st, WNOHANG);
            struct worker_s * w = &sh->w[i];
            if (r == pid[i]) {
                any = true;
                pid[i] = 0; --alive;
                int crashed = !w->finished;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 43) {
                    o->error = 1;
                    snprintf(o->msg, sizeof(o->msg), "%s", w->errmsg);
                    atomic_store(&sh->stop, 1);
                } else if (crashed && !o->violated && !atomic_load(&sh->viol_claimed)) {
                    char e[600];
                    read_err(i, e, sizeof(e));
                    atomic_store(&sh->viol_claimed, 1);
                    atomic_store(&sh->stop, 1);
                    o->violated = 1;
                    if (WIFSIGNALED(st)) {
                        snprintf(o->msg, sizeof(o->msg), "crash: signal %d %s", WTERMSIG(st), e);
                    } else {
                        snprintf(o->msg, sizeof(o->msg), "crash: exit %d %s", WEXITSTATUS(st), e);
                    }
                    sh->viol = w->vec;
                    sh->viol_ready = 1;
                }
            } else if (w->progress != last[i]) {
                last[i] = w->progress;
                when[i] = now();
            } else if (now() - when[i] > hang_s) {
                kill(pid[i], SIGKILL);
                waitpid(pid[i], &st, 0);
                pid[i] = 0; --alive;
                atomic_store(&sh->stop, 1);
                if (!o->violated && !atomic_load(&sh->viol_claimed)) {
                    atomic_store(&sh->viol_claimed, 1);
                    o->violated = 2;
                    snprintf(o->msg, sizeof(o->msg), "hang: no progress for %.0f s", hang_s);
                    sh->viol = w->vec;
                    sh->viol_ready = 1;
                }
            }
        }
        if (!any && alive) {
            usleep(sleep_us);
            if (sleep_us < 20000) { sleep_us += sleep_us / 2; }
        }
    }
    if (!o->violated && !o->error && sh->viol_ready) {
        o->violated = 1;
        snprintf(o->msg, sizeof(o->msg), "%s", sh->viol_msg);
    }
}

static void reset_viol(void) {
    atomic_store(&sh->stop, 0);
    atomic_store(&sh->viol_claimed, 0);
    sh->viol_ready = 0;
    sh->viol_msg[0] = 0;
}

/* replay alone in a fresh process; 1: fails again */
static int replay(const struct vec_s * v, const char * trace_path, double hang_s, struct outcome_s * o) {
    pid_t pid[1];
    memset(o, 0, sizeof(*o));
    reset_viol();
    pid[0] = spawn(0, 2, 0, v, trace_path);
    supervise(pid, 1, hang_s, o);
    if (o->violated && trace_path && strncmp(o->msg, "crash", 5) == 0) {
        FILE * f = fopen(trace_path, "a");
        if (f) { fprintf(f, "VIOLATION: %s\n", o->msg); fclose(f); }
    }
    return o->violated;
}

static void json_str(FILE * f, const char * s) {
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { fprintf(f, "\\%c", c); }
        else if (c == '\n') { fputs("\\n", f); }
        else if (c < 32 || c > 126) { fprintf(f, "\\u%04x", c); }
        else { fputc(c, f); }
    }
    fputc('"', f);
}

static void json_trace(FILE * f, const char * path, int max_lines) {
    char line[1200];
    FILE * t = fopen(path, "r");
    fputc('[', f);
    int k = 0, skipped = 0;
    if (t) {
        while (fgets(line, sizeof(line), t)) {
            line[strcspn(line, "\n")] = 0;
            if (k >= max_lines) { ++skipped; continue; }
            if (k++) { fputs(", ", f); }
            json_str(f, line);
        }
        fclose(t);
    }
    if (skipped) {
        snprintf(line, sizeof(line), "... %d more", skipped);
        fputs(", ", f);
        json_str(f, line);
    }
    fputc(']', f);
}

static int workers = 8;
static double hang_limit = 30.0;

static int explore(const struct mc_property * prop, const struct mc_scenario * s, FILE * out, bool first, const char * replay_path) {
    struct outcome_s o = {0};
    pid_t pid[MAX_WORKERS];
    double t0 = now();
    cur_scn = s;
    cur_dev = mc_thorough ? s->dev_thorough : s->dev_quick;
    uint64_t states0 = atomic_load(&sh->states);
    memset(sh->sample_used, 0, sizeof(sh->sample_used));
    atomic_store(&sh->samples_seen, 0);
    atomic_store(&sh->next_prefix, 0);
    reset_viol();
    sh->scout_prefixes = 0;
    int depth;
    for (depth = 1; depth <= 64; depth = depth < 6 ? depth + 1 : depth + 2) {
        pid[0] = spawn(0, 0, depth, 0, 0);
        supervise(pid, 1, hang_limit, &o);
        if (o.violated || o.error) { break; }
        long p = sh->scout_prefixes;
        if (p < 0 || p >= 24 * workers) { break; }
    }
    uint64_t execs = 0, trans = 0, maxc = 0, pruned = 0;
    int capped = 0;
    if (!o.violated && !o.error) {
        int n = workers;
        reset_viol();
        for (int i = 0; i < n; ++i) { memset(&sh->w[i], 0, sizeof(sh->w[i])); }
        for (int i = 0; i < n; ++i) { pid[i] = spawn(i, 1, depth, 0, 0); }
        supervise(pid, n, hang_limit, &o);
        for (int i = 0; i < n; ++i) {
            execs += sh->w[i].execs; trans += sh->w[i].transitions; pruned += sh->w[i].pruned;
            if (sh->w[i].max_choices > maxc) { maxc = sh->w[i].max_choices; }
            capped |= sh->w[i].capped;
        }
    }
    int rc = 0;
    fprintf(out, "%s{\"scenario\": ", first ? "" : ",\n ");
    json_str(out, s->name);
    if (o.error) {
        fprintf(stderr, "ERROR property=%s scenario=%s: %s\n", prop->id, s->name, o.msg);
        rc = 3;
    } else if (o.violated) {
        struct vec_s * v = malloc(sizeof(*v));
        char tp[700];
        *v = sh->viol;
        snprintf(tp, sizeof(tp), "%s/trace.viol", tmpdir);
        char first_msg[2300];
        snprintf(first_msg, sizeof(first_msg), "%s", o.msg);
        int again = 0;
        struct outcome_s o2;
        for (int k = 0; k < 3 && !again; ++k) {
            again = replay(v, tp, o.violated == 2 ? 60.0 : hang_limit, &o2);
        }
        if (!again) {
            fprintf(stderr, "ERROR property=%s scenario=%s: \"%s\" did not reproduce on replay\n", prop->id, s->name, first_msg);
            rc = 3;
        } else {
            FILE * f = fopen(replay_path, "w");
            if (f) {
                fprintf(f, "{\"property\": \"%s\", \"scenario\": ", prop->id);
                json_str(f, s->name);
                fprintf(f, ", \"tier\": \"%s\", \"dev\": %d,\n \"message\": ", mc_thorough ? "thorough" : "quick", cur_dev);
                json_str(f, o2.msg);
                fprintf(f, ",\n \"choices\": [");
                for (int i = 0; i < v->len; ++i) { fprintf(f, "%s%d", i ? "," : "", v->v[i]); }
                fprintf(f, "],\n \"trace\": ");
                json_trace(f, tp, 400);
                fprintf(f, "}\n");
                fclose(f);
            }
            printf("violation in scenario %s: %s\n", s->name, o2.msg);
            FILE * t = fopen(tp, "r");
            char line[1200];
            int k = 0;
            while (t && fgets(line, sizeof(line), t)) { if (k++ < 120) { printf("    %s", line); } }
            if (t) { fclose(t); }
            printf("VIOLATION property=%s replay=%s\n", prop->id, replay_path);
            fprintf(out, ", \"violation\": ");
            json_str(out, o2.msg);
            rc = 1;
        }
        free(v);
    }
    fprintf(out, ", \"executions\": %llu, \"transitions\": %llu, \"pruned\": %llu, \"new_states\": %llu, \"max_choices\": %llu, "
            "\"deviation_bound\": %d, \"complete\": %s, \"wall_s\": %.2f",
            (unsigned long long) execs, (unsigned long long) trans, (unsigned long long) pruned,
            (unsigned long long) (atomic_load(&sh->states) - states0), (unsigned long long) maxc, cur_dev,
            (capped || rc) ? "false" : "true", now() - t0);
    fprintf(out, ", \"samples\": [");
    int ns = 0;
    for (int k = 0; k < SAMPLES && rc == 0; ++k) {
        if (!atomic_load(&sh->sample_used[k])) { continue; }
        struct outcome_s o3;
        char tp[700];
        snprintf(tp, sizeof(tp), "%s/trace.s", tmpdir);
        struct vec_s * v = malloc(sizeof(*v));
        *v = sh->sample[k];
        if (replay(v, tp, 60.0, &o3)) {
            fprintf(stderr, "ERROR property=%s scenario=%s: a passing execution failed on replay: %s\n", prop->id, s->name, o3.msg);
            rc = 3;
        }
        free(v);
        fprintf(out, "%s", ns++ ? ", " : "");
        json_trace(out, tp, 40);
    }
    fprintf(out, "]}");
    if (getenv("MC_VERBOSE")) {
        fprintf(stderr, "%s %-28s exec=%llu trans=%llu states+=%llu maxc=%llu depth=%d %s%.2fs\n", prop->id, s->name,
                (unsigned long long) execs, (unsigned long long) trans,
                (unsigned long long) (atomic_load(&sh->states) - states0), (unsigned long long) maxc, depth,
                capped ? "CAPPED " : "", now() - t0);
    }
    return rc;
}

static int do_replay_file(const char * path) {
    FILE * f = fopen(path, "r");
    if (!f) { perror(path); return 2; }
    char * buf = malloc(1 << 20);
    size_t n = fread(buf, 1, (1 << 20) - 1, f);
    buf[n] = 0;
    fclose(f);
    char id[16] = "", name[128] = "", tier[16] = "";
    int dev = 0;
    char * p = strstr(buf, "\"property\": \"");
    if (p) { sscanf(p + 13, "%15[^\"]", id); }
    p = strstr(buf, "\"scenario\": \"");
    if (p) { sscanf(p + 13, "%127[^\"]", name); }
    p = strstr(buf, "\"tier\": \"");
    if (p) { sscanf(p + 9, "%15[^\"]", tier); }
    p = strstr(buf, "\"dev\": ");
    if (p) { dev = atoi(p + 7); }
    mc_thorough = (0 == strcmp(tier, "thorough"));
    struct vec_s * v = calloc(1, sizeof(*v));
    p = strstr(buf, "\"choices\": [");
    if (p) {
        p += 12;
        while (*p && *p != ']' && v->len < MC_MAX_CHOICES) {
            v->v[v->len++] = (int) strtol(p, &p, 10);
            if (*p == ',') { ++p; }
        }
    }
    for (const struct mc_property * q = mc_properties; q->id; ++q) {
        if (strcmp(q->id, id)) { continue; }
        for (const struct mc_scenario * s = q->scenarios; s->name; ++s) {
            if (strcmp(s->name, name)) { continue; }
            struct outcome_s o;
            char tp[700], line[1200];
            cur_scn = s; cur_dev = dev;
            snprintf(tp, sizeof(tp), "%s/trace.r", tmpdir);
            int r = replay(v, tp, 60.0, &o);
            FILE * t = fopen(tp, "r");
            while (t && fgets(line, sizeof(line), t)) { fputs(line, stdout); }
            if (t) { fclose(t); }
            printf("%s\n", r ? o.msg : (o.error ? "replay error" : "the property held on this execution"));
            return r ? 1 : (o.error ? 3 : 0);
        }
    }
    fprintf(stderr, "no such scenario: %s %s\n", id, name);
    return 2;
}

int main(int argc, char ** argv) {
    const char * id = 0, * out_path = 0, * replay_path = "replay.json", * replay_in = 0, * only = 0;
    const char * tier = "quick";
    const char * work = "/tmp";
    double cap = 0;
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--property") && i + 1 < argc) { id = argv[++i]; }
        else if (!strcmp(argv[i], "--tier") && i + 1 < argc) { tier = argv[++i]; }
        else if (!strcmp(argv[i], "--out") && i + 1 < argc) { out_path = argv[++i]; }
        else if (!strcmp(argv[i], "--replay-out") && i + 1 < argc) { replay_path = argv[++i]; }
        else if (!strcmp(argv[i], "--replay") && i + 1 < argc) { replay_in = argv[++i]; }
        else if (!strcmp(argv[i], "--known") && i + 1 < argc) { known_keys = argv[++i]; }
        else if (!strcmp(argv[i], "--only") && i + 1 < argc) { only = argv[++i]; }
        else if (!strcmp(argv[i], "--work") && i + 1 < argc) { work = argv[++i]; }
        else if (!strcmp(argv[i], "--workers") && i + 1 < argc) { workers = atoi(argv[++i]); }
        else if (!strcmp(argv[i], "--cap") && i + 1 < argc) { cap = atof(argv[++i]); }
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
    }
    if (workers < 1) { workers = 1; }
    if (workers > MAX_WORKERS) { workers = MAX_WORKERS; }
    blk_head.next = blk_head.prev = &blk_head;
    mc_thorough = (0 == strcmp(tier, "thorough"));
    snprintf(tmpdir, sizeof(tmpdir), "%s", work);
    sh = mmap(0, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ht = mmap(0, HT_SIZE * sizeof(*ht), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || ht == MAP_FAILED) { perror("mmap"); return 2; }
    me = &sh->w[0];
    snapshot();
    if (replay_in) { return do_replay_file(replay_in); }
    FILE * out = out_path ? fopen(out_path, "w") : fopen("/dev/null", "w");
    if (!out) { perror("out"); return 2; }
    t_start = now();
    t_cap = cap;
    int rc = 0;
    bool found = false;
    fprintf(out, "{\"scenarios\": [");
    for (const struct mc_property * p = mc_properties; p->id && rc == 0; ++p) {
        if (!id || strcmp(p->id, id)) { continue; }
        bool first = true;
        for (const struct mc_scenario * s = p->scenarios; s->name && rc == 0; ++s) {
            if (only && !strstr(s->name, only)) { continue; }
            if (s->tier == 1 && !mc_thorough) { continue; }
            if (s->tier == -1 && mc_thorough) { continue; }
            rc = explore(p, s, out, first, replay_path);
            first = false;
            found = true;
        }
    }
    fprintf(out, "],\n \"states\": %llu, \"states_saturated\": %s, \"known\": [",
            (unsigned long long) atomic_load(&sh->states), atomic_load(&sh->ht_full) ? "true" : "false");
    int n = atomic_load(&sh->known_count);
    for (int i = 0; i < n && i < 32; ++i) {
        bool dup = false;
        for (int k = 0; k < i; ++k) { dup |= !strcmp(sh->known_hit[i], sh->known_hit[k]); }
        if (!dup) { fprintf(out, "%s\"%s\"", i ? ", " : "", sh->known_hit[i]); }
    }
    fprintf(out, "]}\n");
    fclose(out);
    if (!found) { fprintf(stderr, "no scenario\n"); return 2; }
    return rc;
}
